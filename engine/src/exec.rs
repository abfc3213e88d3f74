//! Symbolic execution of the parsed IR: path states, memory, instructions.

use crate::expr::{self, as_const, bin, cst, mask, sext128, FxMap, Id, Model, K};
use crate::ir::*;
use crate::z3::{Res, Solver};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Instant;

/// A scalar: concrete when `e` is 0 (only widths up to 64), otherwise expression `e`.
#[derive(Clone, Copy, Debug)]
pub struct V {
    pub c: u64,
    pub e: Id,
}
impl V {
    #[inline(always)]
    pub fn c(c: u64) -> V {
        V { c, e: 0 }
    }
    pub fn id(self, w: u32) -> Id {
        if self.e != 0 {
            self.e
        } else {
            cst(self.c as u128, w)
        }
    }
    pub fn of(e: Id) -> V {
        let n = expr::node(e);
        if n.k == K::Const && n.w <= 64 {
            V { c: expr::nconst(&n) as u64, e: 0 }
        } else {
            V { c: 0, e }
        }
    }
}

#[derive(Clone)]
pub struct Obj {
    pub bytes: Vec<u8>,
    pub sym: Option<Box<[u32]>>,
    pub align: u32,
    pub ro: bool,
}

const CH: usize = 64;
type Chunk = Rc<Vec<Option<Rc<Obj>>>>;

const HEAP0: u64 = 0x0100_0000;
const STACK0: u64 = 0x4000_0000;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub blk: u32,
    pub ip: u32,
    pub base: u32,
    pub sbase: u32,
    pub dst: u32,
    pub nret: u32,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub regs: Vec<V>,
    heap: Vec<Chunk>,
    heap_n: u32,
    stack: Vec<Rc<Obj>>,
    gover: FxMap<u32, Rc<Obj>>,
    pub pc: Vec<Id>,
    pub model: Rc<Model>,
    /// widths of the symbolic inputs, in creation order
    pub inputs: Vec<u8>,
    pub panic_mode: u32,
    pub obs: Vec<(V, u32)>,
    pub steps: u64,
    pub live_bytes: u64,
    pub live_allocs: u64,
    pub depth: u32,
    pub notes: u64,
    /// the running thread, and the others (empty unless a harness runs threads)
    pub cur: u32,
    pub parked: Vec<Thread>,
    /// how many more times a thread that could go on may be interrupted
    pub preempt: u32,
    /// the running thread was chosen at this very point
    pub sched_go: bool,
    /// the choice that is being made
    pub sched_var: Id,
    /// which of the inputs are choices of the scheduler
    pub sched: Vec<u32>,
    pub switches: u32,
}

/// A thread that is not running. The entry of the running thread is empty.
#[derive(Clone, Default)]
pub struct Thread {
    pub frames: Vec<Frame>,
    regs: Vec<V>,
    stack: Vec<Rc<Obj>>,
    tls: FxMap<u32, Rc<Obj>>,
    pub done: bool,
}
const TSHIFT: u32 = 20;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(u8, u64)>,
    pub trace: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub inputs: Vec<(u8, u64)>,
    pub digest: u64,
    pub outcome: String,
}

pub enum End {
    Done,
    Panic(String),
    Infeasible,
    Viol(String, String),
    Err(String),
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub panics_ok: u64,
    pub infeasible: u64,
    pub steps: u64,
    pub forks: u64,
    pub checks: u64,
    pub sym_checks: u64,
    pub conc_forks: u64,
    pub max_pc: usize,
    pub max_inputs: usize,
}

pub struct Cfg {
    pub max_steps_path: u64,
    pub max_depth: usize,
    pub deadline: Option<Instant>,
    pub hash_mode: u32,
    pub random_keys: (u64, u64),
    pub max_viol: usize,
    pub trace: bool,
    pub itrace: bool,
    pub max_samples: usize,
    pub seed: u64,
}

pub struct Engine {
    pub link: Link,
    pub solver: Solver,
    gobjs: Vec<Option<Rc<Obj>>>,
    pub work: Vec<State>,
    pub stats: Stats,
    pub cfg: Cfg,
    pub viols: Vec<Violation>,
    pub viol_count: u64,
    pub hangs: u64,
    pub errors: BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub reach: BTreeMap<u32, u64>,
    pub used: Vec<bool>,
    pub fn_calls: FxMap<u32, u64>,
    eprint_fn: Option<u32>,
    rng: u64,
    phi_tmp: Vec<V>,
    pub incomplete: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(i32)]
enum B {
    None = -1,
    Alloc = 0,
    AllocZ,
    Dealloc,
    Realloc,
    Nop,
    PanicFmt,
    PanicOther,
    Abort,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    RetZero,
    RetArg2,
    RandomKeys,
    Eprint,
    Hash,
    SymNew,
    SymAssume,
    SymCheck,
    SymReach,
    SymPanicMode,
    SymObserve,
    SymConc,
    SymTrace,
    SymIsSym,
    CMalloc,
    CFree,
    Errno,
    SymLive,
    SymMinus1,
    Threads,
    Yield,
    LockSlow,
}
const BS: &[B] = &[
    B::Alloc,
    B::AllocZ,
    B::Dealloc,
    B::Realloc,
    B::Nop,
    B::PanicFmt,
    B::PanicOther,
    B::Abort,
    B::Memcpy,
    B::Memset,
    B::Memcmp,
    B::Bcmp,
    B::Strlen,
    B::RetZero,
    B::RetArg2,
    B::RandomKeys,
    B::Eprint,
    B::Hash,
    B::SymNew,
    B::SymAssume,
    B::SymCheck,
    B::SymReach,
    B::SymPanicMode,
    B::SymObserve,
    B::SymConc,
    B::SymTrace,
    B::SymIsSym,
    B::CMalloc,
    B::CFree,
    B::Errno,
    B::SymLive,
    B::SymMinus1,
    B::Threads,
    B::Yield,
    B::LockSlow,
];

fn builtin_of(n: &str) -> B {
    // allocator shims and panics of the Rust runtime
    if n.contains("7___rustc") {
        if n.ends_with("12___rust_alloc") {
            return B::Alloc;
        }
        if n.ends_with("19___rust_alloc_zeroed") {
            return B::AllocZ;
        }
        if n.ends_with("14___rust_dealloc") {
            return B::Dealloc;
        }
        if n.ends_with("14___rust_realloc") {
            return B::Realloc;
        }
        if n.contains("no_alloc_shim") {
            return B::Nop;
        }
    }
    if n.starts_with("_R") {
        if n.contains("4core9panicking9panic_fmt") {
            return B::PanicFmt;
        }
        if n.contains("4core9panicking18panic_nounwind_fmt") || n.contains("4core9panicking30panic_null_pointer") {
            return B::PanicOther;
        }
        if n.contains("3std7process5abort") || n.contains("3std9panicking20rust_panic_with_hook") {
            return B::Abort;
        }
        if n.contains("5alloc5alloc18handle_alloc_error") {
            return B::Abort;
        }
        if n.ends_with("5futex10futex_wait") {
            return B::Yield;
        }
        if n.ends_with("5futex10futex_wake") || n.ends_with("5futex14futex_wake_all") {
            return B::Nop;
        }
        if n.contains("5mutex5futex") && n.ends_with("14lock_contended") {
            return B::LockSlow;
        }
        if n.contains("19hashmap_random_keys") {
            return B::RandomKeys;
        }
        if n.ends_with("3std2io5stdio7__eprint") || n.ends_with("3std2io5stdio6__print") {
            return B::Eprint;
        }
        if n.contains("12thread_local11destructors10linux_like8register")
            || n.contains("12thread_local5guard3key6enable")
        {
            return B::Nop;
        }
        return B::None;
    }
    match n {
        "memcpy" | "memmove" => B::Memcpy,
        "memset" => B::Memset,
        "memcmp" => B::Memcmp,
        "bcmp" => B::Bcmp,
        "strlen" => B::Strlen,
        "getenv" | "isatty" => B::RetZero,
        "write" => B::RetArg2,
        "__cxa_thread_atexit_impl" => B::Nop,
        "__errno_location" => B::Errno,
        "malloc" => B::CMalloc,
        "free" => B::CFree,
        "__ksym_hash" => B::Hash,
        "__ksym_new" => B::SymNew,
        "__ksym_assume" => B::SymAssume,
        "__ksym_check" => B::SymCheck,
        "__ksym_reach" => B::SymReach,
        "__ksym_panic_mode" => B::SymPanicMode,
        "__ksym_observe" => B::SymObserve,
        "__ksym_conc" => B::SymConc,
        "__ksym_trace" => B::SymTrace,
        "__ksym_is_sym" => B::SymIsSym,
        "__ksym_threads" => B::Threads,
        "__ksym_live" => B::SymLive,
        "read" | "open" | "open64" | "fopen" => B::SymMinus1,
        _ => B::None,
    }
}

type X<T> = Result<T, End>;

macro_rules! err {
    ($($a:tt)*) => { End::Err(format!($($a)*)) };
}

impl Engine {
    pub fn new(link: Link, cfg: Cfg, timeout_ms: u32) -> Self {
        let rng = cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        Engine {
            link,
            solver: Solver::new(timeout_ms),
            gobjs: vec![],
            work: vec![],
            stats: Stats::default(),
            cfg,
            viols: vec![],
            viol_count: 0,
            hangs: 0,
            errors: BTreeMap::new(),
            samples: vec![],
            reach: BTreeMap::new(),
            used: vec![],
            fn_calls: Default::default(),
            eprint_fn: None,
            rng,
            phi_tmp: vec![],
            incomplete: false,
        }
    }

    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let a = self.link.sym_addr(MODULE_ANY, entry);
        let f = addr_fn(a).ok_or("entry is not a function")?;
        let func = self.link.func(f)?;
        if let Some(Sym::Func { .. }) = self.link.globals_by_name.get("ksym_eprint") {
            let a = self.link.sym_addr(MODULE_ANY, "ksym_eprint");
            self.eprint_fn = addr_fn(a);
        }
        let st = State {
            frames: vec![Frame { f: func, blk: 0, ip: 0, base: 0, sbase: 0, dst: 0, nret: 0 }],
            regs: vec![V::c(0); func.nslots as usize],
            heap: vec![],
            heap_n: 0,
            stack: vec![],
            gover: Default::default(),
            pc: vec![],
            model: Rc::new(Model::new(vec![])),
            inputs: vec![],
            panic_mode: 0,
            obs: vec![],
            steps: 0,
            live_bytes: 0,
            live_allocs: 0,
            depth: 0,
            notes: 0,
            cur: 0,
            parked: vec![],
            preempt: 0,
            sched_go: false,
            sched_var: 0,
            sched: vec![],
            switches: 0,
        };
        self.work.push(st);
        Ok(())
    }

    fn inputs_of(st: &State) -> Vec<(u8, u64)> {
        st.inputs
            .iter()
            .enumerate()
            .map(|(i, w)| {
                // width 0 marks a choice of the scheduler
                let w = if st.sched.contains(&(i as u32)) { &0 } else { w };
                if *w == 0 {
                    return (0, st.model.vals.get(i).copied().unwrap_or(0) & 0xff);
                }
                (*w, st.model.vals.get(i).copied().unwrap_or(0) & mask(*w as u32) as u64)
            })
            .collect()
    }

    fn backtrace(st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| f.f.name.clone()).collect()
    }

    /// Runs one state until its path ends; forks go to `self.work`.
    pub fn run(&mut self, mut st: State) {
        let s0 = st.steps;
        let end = loop {
            match self.step_many(&mut st) {
                Ok(()) => {}
                Err(e) => break e,
            }
        };
        self.stats.steps += st.steps - s0;
        self.stats.max_pc = self.stats.max_pc.max(st.pc.len());
        self.stats.max_inputs = self.stats.max_inputs.max(st.inputs.len());
        self.finish(st, end);
    }

    fn verify_model(&self, st: &State) -> bool {
        st.pc.iter().all(|c| st.model.eval(*c) == 1)
    }

    fn finish(&mut self, st: State, end: End) {
        let end = match end {
            End::Panic(loc) => {
                if st.panic_mode == 0 {
                    End::Viol("panic".into(), loc)
                } else {
                    self.stats.panics_ok += 1;
                    self.sample(&st, "panic");
                    self.stats.paths += 1;
                    return;
                }
            }
            e => e,
        };
        match end {
            End::Done => {
                self.stats.paths += 1;
                if st.panic_mode == 2 {
                    self.violation(&st, "nopanic", "a panic was required here");
                    return;
                }
                self.sample(&st, "ok");
            }
            End::Infeasible => self.stats.infeasible += 1,
            End::Viol(k, m) => {
                self.stats.paths += 1;
                self.violation(&st, &k, &m);
            }
            End::Err(m) => {
                let bt = Self::backtrace(&st);
                let key = format!("{} | in {}", m, bt.iter().take(6).cloned().collect::<Vec<_>>().join(" < "));
                *self.errors.entry(key).or_insert(0) += 1;
            }
            End::Panic(_) => unreachable!(),
        }
    }

    fn digest(st: &State) -> u64 {
        let mut h: u64 = 0xcbf29ce484222325;
        for (v, w) in &st.obs {
            let x = if v.e == 0 { v.c } else { st.model.eval(v.e) as u64 };
            let x = x & mask(*w) as u64;
            for b in x.to_le_bytes() {
                h ^= b as u64;
                h = h.wrapping_mul(0x100000001b3);
            }
        }
        h
    }

    fn sample(&mut self, st: &State, outcome: &str) {
        let n = self.stats.paths;
        let s = || Sample {
            inputs: Self::inputs_of(st),
            digest: Self::digest(st),
            outcome: outcome.to_string(),
        };
        if self.samples.len() < self.cfg.max_samples {
            let x = s();
            self.samples.push(x);
        } else {
            let r = self.rand() % (n + 1);
            if (r as usize) < self.samples.len() {
                let x = s();
                self.samples[r as usize] = x;
            }
        }
    }

    fn violation(&mut self, st: &State, kind: &str, msg: &str) {
        if !self.verify_model(st) {
            *self.errors.entry("internal: the witness violates its path condition".into()).or_insert(0) += 1;
            return;
        }
        self.viol_count += 1;
        if kind == "hang" {
            self.hangs += 1;
        }
        if let Some(p) = self.viols.iter().position(|v| v.kind == kind && v.msg == msg) {
            // keep a few witnesses of each kind
            let n = self.viols.iter().filter(|v| v.kind == kind && v.msg == msg).count();
            let _ = p;
            if n >= 3 {
                return;
            }
        }
        self.viols.push(Violation {
            kind: kind.into(),
            msg: msg.into(),
            inputs: Self::inputs_of(st),
            trace: Self::backtrace(st),
        });
    }

    // ---------------------------------------------------------------- solver

    fn with_vals(model: &Model, add: &[(u32, u64)]) -> Rc<Model> {
        let mut v = model.vals.clone();
        for (i, x) in add {
            if v.len() <= *i as usize {
                v.resize(*i as usize + 1, 0);
            }
            v[*i as usize] = *x;
        }
        Rc::new(Model::new(v))
    }

    fn add_pc(st: &mut State, c: Id) {
        let n = expr::node(c);
        if n.k == K::Const {
            return;
        }
        if n.k == K::And {
            Self::add_pc(st, n.a);
            Self::add_pc(st, n.b);
            return;
        }
        if !st.pc.contains(&c) {
            st.pc.push(c);
        }
    }

    fn sat(&mut self, st: &State, q: Id, smt: bool) -> X<Option<Rc<Model>>> {
        match self.solver.check(&st.pc, q, smt) {
            Res::Unsat => Ok(None),
            Res::Sat(v) => Ok(Some(Self::with_vals(&st.model, &v))),
            Res::Unknown => Err(err!("solver gave no answer")),
        }
    }

    /// Which way does `c` go?  (side under the witness, model of the other side)
    fn decide(&mut self, st: &State, c: Id) -> X<(bool, Option<Rc<Model>>)> {
        if let Some(v) = as_const(c) {
            return Ok((v == 1, None));
        }
        let nc = expr::not(c);
        for p in st.pc.iter().rev() {
            if *p == c {
                return Ok((true, None));
            }
            if *p == nc {
                return Ok((false, None));
            }
        }
        let side = st.model.eval(c) == 1;
        let other = if side { nc } else { c };
        let m = self.sat(st, other, false)?;
        Ok((side, m))
    }

    /// Fixes `v` to one value here; the other values continue in a forked state
    /// that executes the current instruction again.
    fn conc(&mut self, st: &mut State, v: V) -> X<u64> {
        if v.e == 0 {
            return Ok(v.c);
        }
        let w = expr::width(v.e);
        if w > 64 {
            return Err(err!("concretization of a wide value"));
        }
        let val = st.model.eval(v.e) as u64;
        let eq = expr::eq(v.e, cst(val as u128, w));
        if as_const(eq) == Some(1) {
            return Ok(val);
        }
        let ne = expr::not(eq);
        if let Some(m) = self.sat(st, ne, false)? {
            let mut o = st.clone();
            Self::add_pc(&mut o, ne);
            o.model = m;
            o.depth += 1;
            self.stats.forks += 1;
            self.stats.conc_forks += 1;
            self.work.push(o);
            Self::add_pc(st, eq);
        }
        Ok(val)
    }

    // ---------------------------------------------------------------- memory

    fn gobj(&mut self, g: u32) -> X<&Rc<Obj>> {
        let i = g as usize;
        if self.gobjs.len() <= i {
            self.gobjs.resize(i + 1, None);
        }
        if self.gobjs[i].is_none() {
            let (d, ro) = self.link.global_data(g).map_err(|e| err!("{}", e))?;
            self.gobjs[i] =
                Some(Rc::new(Obj { bytes: (*d).clone(), sym: None, align: 16, ro }));
        }
        Ok(self.gobjs[i].as_ref().unwrap())
    }

    fn mem_err(what: &str, addr: u64, n: u64) -> End {
        End::Viol("memory".into(), format!("{} ({} bytes at {:#x})", what, n, addr))
    }

    #[inline]
    fn obj<'a>(&'a mut self, st: &'a State, addr: u64) -> X<&'a Rc<Obj>> {
        let oid = addr >> 32;
        if oid >= STACK0 {
            let i = (oid - STACK0) as usize;
            let (t, i) = (i >> TSHIFT, i & ((1 << TSHIFT) - 1));
            let s = if t == st.cur as usize {
                &st.stack
            } else {
                match st.parked.get(t) {
                    Some(t) => &t.stack,
                    None => return Err(Self::mem_err("invalid stack pointer", addr, 0)),
                }
            };
            return s.get(i).ok_or_else(|| Self::mem_err("invalid stack pointer", addr, 0));
        }
        if oid >= HEAP0 {
            let i = (oid - HEAP0) as usize;
            return match st.heap.get(i / CH).and_then(|c| c.get(i % CH)) {
                Some(Some(o)) => Ok(o),
                Some(None) => Err(Self::mem_err("use after free", addr, 0)),
                None => Err(Self::mem_err("invalid pointer", addr, 0)),
            };
        }
        if oid == 0 {
            return Err(Self::mem_err("null or dangling pointer dereference", addr, 0));
        }
        let g = (oid - 1) as u32;
        if g as usize >= self.link.gs.len() {
            return Err(Self::mem_err("invalid pointer", addr, 0));
        }
        if let Some(o) = st.gover.get(&g) {
            return Ok(o);
        }
        self.gobj(g)
    }

    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64) -> X<&'a mut Obj> {
        let oid = addr >> 32;
        if oid >= STACK0 {
            let i = (oid - STACK0) as usize;
            let (t, i) = (i >> TSHIFT, i & ((1 << TSHIFT) - 1));
            let s = if t == st.cur as usize {
                &mut st.stack
            } else {
                match st.parked.get_mut(t) {
                    Some(t) => &mut t.stack,
                    None => return Err(Self::mem_err("invalid stack pointer", addr, 0)),
                }
            };
            return match s.get_mut(i) {
                Some(o) => Ok(Rc::make_mut(o)),
                None => Err(Self::mem_err("invalid stack pointer", addr, 0)),
            };
        }
        if oid >= HEAP0 {
            let i = (oid - HEAP0) as usize;
            return match st.heap.get_mut(i / CH) {
                Some(c) => match Rc::make_mut(c).get_mut(i % CH) {
                    Some(Some(o)) => Ok(Rc::make_mut(o)),
                    Some(None) => Err(Self::mem_err("write after free", addr, 0)),
                    None => Err(Self::mem_err("invalid pointer", addr, 0)),
                },
                None => Err(Self::mem_err("invalid pointer", addr, 0)),
            };
        }
        if oid == 0 {
            return Err(Self::mem_err("null or dangling pointer write", addr, 0));
        }
        let g = (oid - 1) as u32;
        if g as usize >= self.link.gs.len() {
            return Err(Self::mem_err("invalid pointer", addr, 0));
        }
        if !st.gover.contains_key(&g) {
            let o = self.gobj(g)?.clone();
            if o.ro {
                return Err(Self::mem_err("write to a constant", addr, 0));
            }
            st.gover.insert(g, o);
        }
        Ok(Rc::make_mut(st.gover.get_mut(&g).unwrap()))
    }

    fn alloc(&mut self, st: &mut State, size: u64, align: u64) -> X<u64> {
        if size > 1 << 28 {
            return Err(err!("allocation of {} bytes", size));
        }
        let i = st.heap_n as usize;
        st.heap_n += 1;
        if i / CH >= st.heap.len() {
            st.heap.push(Rc::new(Vec::with_capacity(CH)));
        }
        let o = Rc::new(Obj { bytes: vec![0; size as usize], sym: None, align: align as u32, ro: false });
        Rc::make_mut(&mut st.heap[i / CH]).push(Some(o));
        st.live_bytes += size;
        st.live_allocs += 1;
        Ok((HEAP0 + i as u64) << 32)
    }

    fn dealloc(&mut self, st: &mut State, addr: u64, layout: Option<(u64, u64)>) -> X<Rc<Obj>> {
        let oid = addr >> 32;
        if oid < HEAP0 || oid >= STACK0 || addr & 0xffff_ffff != 0 {
            return Err(Self::mem_err("free of an invalid pointer", addr, 0));
        }
        let i = (oid - HEAP0) as usize;
        let c = match st.heap.get_mut(i / CH) {
            Some(c) => c,
            None => return Err(Self::mem_err("free of an invalid pointer", addr, 0)),
        };
        match Rc::make_mut(c).get_mut(i % CH).and_then(|o| o.take()) {
            Some(o) => {
                if let Some((s, a)) = layout {
                    if o.bytes.len() as u64 != s || o.align as u64 != a {
                        return Err(Self::mem_err(
                            &format!(
                                "free with layout {}/{} of a block of layout {}/{}",
                                s, a, o.bytes.len(), o.align
                            ),
                            addr,
                            s,
                        ));
                    }
                }
                st.live_bytes -= o.bytes.len() as u64;
                st.live_allocs -= 1;
                Ok(o)
            }
            None => Err(Self::mem_err("double free", addr, 0)),
        }
    }

    #[inline]
    fn load(&mut self, st: &State, addr: u64, w: u32) -> X<V> {
        let n = ((w + 7) / 8) as usize;
        let o = self.obj(st, addr)?;
        let off = (addr & 0xffff_ffff) as usize;
        if off + n > o.bytes.len() {
            let l = o.bytes.len();
            return Err(Self::mem_err(&format!("out-of-bounds read, object of {} bytes", l), addr, n as u64));
        }
        match &o.sym {
            None => {
                if n <= 8 {
                    let mut b = [0u8; 8];
                    b[..n].copy_from_slice(&o.bytes[off..off + n]);
                    let v = u64::from_le_bytes(b);
                    Ok(V::c(if w < 64 { v & ((1u64 << w) - 1) } else { v }))
                } else {
                    let mut b = [0u8; 16];
                    b[..n].copy_from_slice(&o.bytes[off..off + n]);
                    Ok(V { c: 0, e: cst(u128::from_le_bytes(b), w) })
                }
            }
            Some(s) => {
                if s[off..off + n].iter().all(|x| *x == 0) {
                    let mut b = [0u8; 16];
                    b[..n].copy_from_slice(&o.bytes[off..off + n]);
                    let v = u128::from_le_bytes(b) & mask(w);
                    return Ok(if w <= 64 { V::c(v as u64) } else { V { c: 0, e: cst(v, w) } });
                }
                let byte = |i: usize| -> Id {
                    if s[off + i] != 0 {
                        s[off + i]
                    } else {
                        cst(o.bytes[off + i] as u128, 8)
                    }
                };
                let mut e = byte(0);
                for i in 1..n {
                    e = expr::concat(byte(i), e);
                }
                if expr::width(e) != w {
                    e = expr::extract(e, 0, w);
                }
                Ok(V::of(e))
            }
        }
    }

    #[inline]
    fn store(&mut self, st: &mut State, addr: u64, v: V, w: u32) -> X<()> {
        let n = ((w + 7) / 8) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        let o = self.obj_mut(st, addr)?;
        if off + n > o.bytes.len() {
            let l = o.bytes.len();
            return Err(Self::mem_err(&format!("out-of-bounds write, object of {} bytes", l), addr, n as u64));
        }
        let c = if v.e == 0 { Some(v.c as u128) } else { as_const(v.e) };
        match c {
            Some(c) => {
                o.bytes[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sym {
                    s[off..off + n].fill(0);
                }
            }
            None => {
                let len = o.bytes.len();
                let s = o.sym.get_or_insert_with(|| vec![0u32; len].into_boxed_slice());
                let e = if w % 8 != 0 { expr::zext(v.e, n as u32 * 8) } else { v.e };
                for i in 0..n {
                    let b = expr::extract(e, i as u32 * 8, 8);
                    if let Some(c) = as_const(b) {
                        o.bytes[off + i] = c as u8;
                        s[off + i] = 0;
                    } else {
                        s[off + i] = b;
                    }
                }
            }
        }
        Ok(())
    }

    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let n = n as usize;
        let so = self.obj(st, s)?.clone();
        let off = (s & 0xffff_ffff) as usize;
        if off + n > so.bytes.len() {
            return Err(Self::mem_err("out-of-bounds copy source", s, n as u64));
        }
        let doff = (d & 0xffff_ffff) as usize;
        let dst = self.obj_mut(st, d)?;
        if doff + n > dst.bytes.len() {
            return Err(Self::mem_err("out-of-bounds copy destination", d, n as u64));
        }
        dst.bytes[doff..doff + n].copy_from_slice(&so.bytes[off..off + n]);
        match (&so.sym, &mut dst.sym) {
            (None, None) => {}
            (None, Some(x)) => x[doff..doff + n].fill(0),
            (Some(y), x) => {
                let part = &y[off..off + n];
                if x.is_none() {
                    if part.iter().all(|b| *b == 0) {
                        return Ok(());
                    }
                    *x = Some(vec![0u32; dst.bytes.len()].into_boxed_slice());
                }
                x.as_mut().unwrap()[doff..doff + n].copy_from_slice(part);
            }
        }
        Ok(())
    }

    fn memset(&mut self, st: &mut State, d: u64, v: V, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let doff = (d & 0xffff_ffff) as usize;
        let n = n as usize;
        let dst = self.obj_mut(st, d)?;
        if doff + n > dst.bytes.len() {
            return Err(Self::mem_err("out-of-bounds fill", d, n as u64));
        }
        if v.e == 0 {
            dst.bytes[doff..doff + n].fill(v.c as u8);
            if let Some(s) = &mut dst.sym {
                s[doff..doff + n].fill(0);
            }
        } else {
            let len = dst.bytes.len();
            let s = dst.sym.get_or_insert_with(|| vec![0u32; len].into_boxed_slice());
            s[doff..doff + n].fill(v.e);
        }
        Ok(())
    }

    fn read_bytes(&mut self, st: &State, p: u64, n: u64) -> X<(Vec<u8>, Option<Vec<u32>>)> {
        if n == 0 {
            return Ok((vec![], None));
        }
        let o = self.obj(st, p)?;
        let off = (p & 0xffff_ffff) as usize;
        let n = n as usize;
        if off + n > o.bytes.len() {
            return Err(Self::mem_err("out-of-bounds read", p, n as u64));
        }
        let sy = o.sym.as_ref().map(|s| s[off..off + n].to_vec()).filter(|s| s.iter().any(|x| *x != 0));
        Ok((o.bytes[off..off + n].to_vec(), sy))
    }

    /// Load through a symbolic pointer: an if-then-else over the feasible offsets
    /// inside the object the witness points to; other objects fork.
    fn load_sym(&mut self, st: &mut State, p: V, slots: &[(u64, u32)]) -> X<Vec<V>> {
        let e = p.e;
        let a0 = st.model.eval(e) as u64;
        let base = a0 & !0xffff_ffff;
        let total: u64 = slots.iter().map(|(o, w)| o + ((*w as u64) + 7) / 8).max().unwrap_or(0);
        let size = match self.obj(st, a0) {
            Ok(o) => o.bytes.len() as u64,
            Err(e) => {
                return Err(e);
            }
        };
        if size < total {
            return Err(Self::mem_err("out-of-bounds read", a0, total));
        }
        // in bounds of this object?
        let hi = base + (size - total);
        let c1 = bin(K::Ule, cst(base as u128, 64), e);
        let c2 = bin(K::Ule, e, cst(hi as u128, 64));
        let inb = expr::and(c1, c2);
        if st.model.eval(inb) != 1 {
            return Err(Self::mem_err("out-of-bounds read", a0, total));
        }
        let out = expr::not(inb);
        if let Some(m) = self.sat(st, out, false)? {
            let mut o = st.clone();
            Self::add_pc(&mut o, out);
            o.model = m;
            o.depth += 1;
            self.stats.forks += 1;
            self.work.push(o);
            Self::add_pc(st, inb);
        }
        // candidate offsets
        let stride = 1u64 << expr::tz(e, 8).min(12);
        let mut cands: Vec<u64> = vec![];
        let first = base;
        let mut a = first;
        while a <= hi {
            cands.push(a);
            a += stride;
            if cands.len() > 4096 {
                break;
            }
        }
        if cands.len() > 160 {
            // enumerate what is feasible
            let mut feas = vec![];
            let mut tmp = st.clone();
            loop {
                let v = tmp.model.eval(e) as u64;
                feas.push(v);
                if feas.len() > 600 {
                    let c = self.conc(st, p)?;
                    let mut r = vec![];
                    for (o, w) in slots {
                        r.push(self.load(st, c + o, *w)?);
                    }
                    return Ok(r);
                }
                let eq = expr::eq(e, cst(v as u128, 64));
                let ne = expr::not(eq);
                match self.sat(&tmp, ne, false)? {
                    None => break,
                    Some(m) => {
                        tmp.model = m;
                        Self::add_pc(&mut tmp, ne);
                    }
                }
            }
            feas.sort_unstable();
            cands = feas;
        }
        let mut res: Vec<Id> = vec![];
        let mut widths = vec![];
        for (o, w) in slots {
            let v = self.load(st, cands[0] + o, *w)?;
            res.push(v.id(*w));
            widths.push(*w);
        }
        for a in &cands[1..] {
            let c = expr::eq(e, cst(*a as u128, 64));
            if as_const(c) == Some(0) {
                continue;
            }
            for (k, (o, w)) in slots.iter().enumerate() {
                let v = self.load(st, a + o, *w)?.id(*w);
                res[k] = expr::ite(c, v, res[k]);
            }
        }
        Ok(res.into_iter().map(V::of).collect())
    }

    // ---------------------------------------------------------------- running

    #[inline(always)]
    fn op(st: &State, base: u32, o: Op) -> V {
        match o {
            Op::R(r) => unsafe { *st.regs.get_unchecked((base + r) as usize) },
            Op::C(c) => V::c(c),
            Op::W(e) => V { c: 0, e },
        }
    }

    fn jump(&mut self, st: &mut State, target: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        fr.blk = target;
        fr.ip = 0;
        let base = fr.base;
        let b = &fr.f.blocks[target as usize];
        if !b.phis.is_empty() {
            for (pred, moves) in &b.phis {
                if *pred == from {
                    if moves.len() == 1 {
                        let v = Self::op(st, base, moves[0].1);
                        st.regs[(base + moves[0].0) as usize] = v;
                    } else {
                        let mut t = std::mem::take(&mut self.phi_tmp);
                        t.clear();
                        for (_, o) in moves {
                            t.push(Self::op(st, base, *o));
                        }
                        for (i, (d, _)) in moves.iter().enumerate() {
                            st.regs[(base + d) as usize] = t[i];
                        }
                        self.phi_tmp = t;
                    }
                    break;
                }
            }
        }
    }

    fn branch_states(&mut self, st: &mut State, c: Id, t: u32, f: u32) -> X<()> {
        let (side, other) = self.decide(st, c)?;
        if let Some(m) = other {
            let mut o = st.clone();
            let oc = if side { expr::not(c) } else { c };
            Self::add_pc(&mut o, oc);
            o.model = m;
            o.depth += 1;
            self.jump(&mut o, if side { f } else { t });
            self.stats.forks += 1;
            self.work.push(o);
            let tc = if side { c } else { expr::not(c) };
            Self::add_pc(st, tc);
        }
        self.jump(st, if side { t } else { f });
        Ok(())
    }

    fn binop(k: BinOp) -> K {
        match k {
            BinOp::Add => K::Add,
            BinOp::Sub => K::Sub,
            BinOp::Mul => K::Mul,
            BinOp::UDiv => K::UDiv,
            BinOp::SDiv => K::SDiv,
            BinOp::URem => K::URem,
            BinOp::SRem => K::SRem,
            BinOp::And => K::And,
            BinOp::Or => K::Or,
            BinOp::Xor => K::Xor,
            BinOp::Shl => K::Shl,
            BinOp::LShr => K::LShr,
            BinOp::AShr => K::AShr,
        }
    }

    #[inline]
    fn bin_v(k: BinOp, w: u32, a: V, b: V) -> V {
        if a.e == 0 && b.e == 0 && w <= 64 {
            let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
            let (x, y) = (a.c, b.c);
            let r = match k {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                BinOp::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                _ => expr::fold(Self::binop(k), w, x as u128, y as u128) as u64,
            };
            V::c(r & m)
        } else {
            V::of(bin(Self::binop(k), a.id(w), b.id(w)))
        }
    }

    #[inline]
    fn icmp_v(p: Pred, w: u32, a: V, b: V) -> V {
        if a.e == 0 && b.e == 0 && w <= 64 {
            let (x, y) = (a.c, b.c);
            let s = 64 - w;
            let (sx, sy) = (((x << s) as i64) >> s, ((y << s) as i64) >> s);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
            };
            return V::c(r as u64);
        }
        let (x, y) = (a.id(w), b.id(w));
        V::of(match p {
            Pred::Eq => bin(K::Eq, x, y),
            Pred::Ne => {
                let e = bin(K::Eq, x, y);
                expr::not(e)
            }
            Pred::Ult => bin(K::Ult, x, y),
            Pred::Ule => bin(K::Ule, x, y),
            Pred::Ugt => bin(K::Ult, y, x),
            Pred::Uge => bin(K::Ule, y, x),
            Pred::Slt => bin(K::Slt, x, y),
            Pred::Sle => bin(K::Sle, x, y),
            Pred::Sgt => bin(K::Slt, y, x),
            Pred::Sge => bin(K::Sle, y, x),
        })
    }

    fn ite_v(c: Id, a: V, b: V, w: u32) -> V {
        V::of(expr::ite(c, a.id(w), b.id(w)))
    }

    // --------------------------------------------------------------- threads

    /// May another thread see an access to `p`?
    fn shared(&mut self, p: V) -> X<bool> {
        if p.e != 0 {
            return Ok(true);
        }
        let oid = p.c >> 32;
        if oid == 0 || oid >= HEAP0 {
            return Ok(false);
        }
        let g = (oid - 1) as u32;
        if g as usize >= self.link.gs.len() {
            return Ok(false);
        }
        if self.link.gs[g as usize].tls || self.link.gs[g as usize].harness {
            return Ok(false);
        }
        Ok(!self.gobj(g)?.ro)
    }

    /// A point before an access to `p` at which the scheduler may switch. True if it did.
    fn point(&mut self, st: &mut State, p: V) -> X<bool> {
        if !self.shared(p)? {
            return Ok(false);
        }
        if st.sched_go {
            st.sched_go = false;
            return Ok(false);
        }
        if st.preempt == 0 {
            return Ok(false);
        }
        self.schedule(st, false)
    }

    /// Chooses the thread to go on with; the one that runs is among them unless `must`.
    fn schedule(&mut self, st: &mut State, must: bool) -> X<bool> {
        let mut opts: Vec<u32> = if must { vec![] } else { vec![st.cur] };
        for (i, t) in st.parked.iter().enumerate().skip(1) {
            if i as u32 != st.cur && !t.done {
                opts.push(i as u32);
            }
        }
        if opts.is_empty() {
            return Ok(false);
        }
        let t = if opts.len() == 1 {
            opts[0]
        } else {
            if st.sched_var == 0 {
                let i = st.inputs.len() as u32;
                st.inputs.push(8);
                st.sched.push(i);
                let v = expr::var(i, 8);
                st.sched_var = v;
                Self::add_pc(st, bin(K::Ult, v, cst(opts.len() as u128, 8)));
                if st.model.eval(v) as usize >= opts.len() {
                    st.model = Self::with_vals(&st.model, &[(i, 0)]);
                }
            }
            let x = self.conc(st, V { c: 0, e: st.sched_var })?;
            st.sched_var = 0;
            opts[x as usize]
        };
        if t == st.cur {
            return Ok(false);
        }
        if !must {
            st.preempt -= 1;
        }
        self.switch(st, t);
        st.sched_go = true;
        Ok(true)
    }

    fn switch(&mut self, st: &mut State, t: u32) {
        st.switches += 1;
        let c = st.cur as usize;
        let mut old = Thread {
            frames: std::mem::take(&mut st.frames),
            regs: std::mem::take(&mut st.regs),
            stack: std::mem::take(&mut st.stack),
            tls: Default::default(),
            done: st.parked[c].done,
        };
        let ks: Vec<u32> = st.gover.keys().copied().filter(|g| self.link.gs[*g as usize].tls).collect();
        for k in ks {
            old.tls.insert(k, st.gover.remove(&k).unwrap());
        }
        st.parked[c] = old;
        let new = std::mem::take(&mut st.parked[t as usize]);
        st.frames = new.frames;
        st.regs = new.regs;
        st.stack = new.stack;
        for (k, o) in new.tls {
            st.gover.insert(k, o);
        }
        st.cur = t;
    }

    fn thread_end(&mut self, st: &mut State) -> X<()> {
        let c = st.cur as usize;
        if self.schedule(st, true)? {
            st.parked[c] = Thread { done: true, ..Default::default() };
            st.sched_go = false;
            return Ok(());
        }
        // the last one: the main thread goes on
        self.switch(st, 0);
        st.parked = vec![];
        st.sched_go = false;
        st.preempt = 0;
        Ok(())
    }

    /// (function, argument, number of threads, preemptions): runs function(argument, i) in threads
    fn run_threads(&mut self, st: &mut State, a: &[V]) -> X<()> {
        if !st.parked.is_empty() {
            return Err(err!("threads within threads"));
        }
        let f = addr_fn(a[0].c).ok_or_else(|| err!("not a function"))?;
        let func = self.link.func(f).map_err(|e| err!("{}", e))?;
        let n = a[2].c;
        st.parked = vec![Thread::default()];
        for i in 0..n {
            let mut regs = vec![V::c(0); func.nslots as usize];
            regs[0] = a[1];
            regs[1] = V::c(i);
            st.parked.push(Thread {
                frames: vec![Frame { f: func, blk: 0, ip: 0, base: 0, sbase: 0, dst: 0, nret: 0 }],
                regs,
                ..Default::default()
            });
        }
        st.preempt = a[3].c as u32;
        st.frames.last_mut().unwrap().ip += 1;
        self.switch(st, 1);
        st.sched_go = false;
        Ok(())
    }

    fn step_many(&mut self, st: &mut State) -> X<()> {
        if st.steps > self.cfg.max_steps_path {
            return Err(End::Viol("hang".into(), format!("no end after {} steps", self.cfg.max_steps_path)));
        }
        for _ in 0..20000 {
            let fr = st.frames.last_mut().unwrap();
            let base = fr.base;
            let blk: &'static Block = unsafe {
                let f: &'static Func = fr.f;
                f.blocks.get_unchecked(fr.blk as usize)
            };
            let inst = &blk.insts[fr.ip as usize];
            st.steps += 1;
            if self.cfg.itrace {
                eprintln!("{} {}:{} {:?}", unsafe { &(*fr.f).name }, blk.name, fr.ip, inst);
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    if self.cfg.itrace {
                        eprintln!("    r{} = {:x} e{}", $d, v.c, v.e);
                    }
                    unsafe { *st.regs.get_unchecked_mut((base + $d) as usize) = v }
                }};
            }
            macro_rules! next {
                () => {{
                    st.frames.last_mut().unwrap().ip += 1;
                }};
            }
            match inst {
                Inst::Bin(k, w, d, a, b) => {
                    let (a, b) = (Self::op(st, base, *a), Self::op(st, base, *b));
                    set!(*d, Self::bin_v(*k, *w, a, b));
                    next!();
                }
                Inst::Icmp(p, w, d, a, b) => {
                    let (a, b) = (Self::op(st, base, *a), Self::op(st, base, *b));
                    set!(*d, Self::icmp_v(*p, *w, a, b));
                    next!();
                }
                Inst::Cast(k, w, w2, d, a) => {
                    let a = Self::op(st, base, *a);
                    let v = if a.e == 0 && *w2 <= 64 {
                        match k {
                            CastK::Trunc => V::c(a.c & mask(*w2) as u64),
                            CastK::ZExt | CastK::Copy => a,
                            CastK::SExt => {
                                V::c(sext128(a.c as u128, *w) as u64 & mask(*w2) as u64)
                            }
                        }
                    } else {
                        let e = a.id(*w);
                        V::of(match k {
                            CastK::Trunc => expr::extract(e, 0, *w2),
                            CastK::ZExt => expr::zext(e, *w2),
                            CastK::SExt => expr::sext(e, *w2),
                            CastK::Copy => e,
                        })
                    };
                    set!(*d, v);
                    next!();
                }
                Inst::Select { dst, c, ws, a, b } => {
                    let c = Self::op(st, base, *c);
                    if c.e == 0 {
                        let src = if c.c & 1 == 1 { a } else { b };
                        if src.len() == 1 {
                            set!(*dst, Self::op(st, base, src[0]));
                        } else {
                            let t: Vec<V> = src.iter().map(|o| Self::op(st, base, *o)).collect();
                            for (i, v) in t.into_iter().enumerate() {
                                set!(*dst + i as u32, v);
                            }
                        }
                    } else {
                        let t: Vec<V> = (0..ws.len())
                            .map(|i| {
                                Self::ite_v(
                                    c.e,
                                    Self::op(st, base, a[i]),
                                    Self::op(st, base, b[i]),
                                    ws[i],
                                )
                            })
                            .collect();
                        for (i, v) in t.into_iter().enumerate() {
                            set!(*dst + i as u32, v);
                        }
                    }
                    next!();
                }
                Inst::Load1 { dst, w, p } => {
                    let p = Self::op(st, base, *p);
                    if !st.parked.is_empty() && self.point(st, p)? {
                        continue;
                    }
                    if p.e == 0 {
                        let v = self.load(st, p.c, *w)?;
                        set!(*dst, v);
                    } else {
                        let v = self.load_sym(st, p, &[(0, *w)])?;
                        set!(*dst, v[0]);
                    }
                    next!();
                }
                Inst::Load { dst, slots, p } => {
                    let p = Self::op(st, base, *p);
                    if !st.parked.is_empty() && self.point(st, p)? {
                        continue;
                    }
                    if p.e == 0 {
                        for (i, (o, w)) in slots.iter().enumerate() {
                            let v = self.load(st, p.c.wrapping_add(*o), *w)?;
                            set!(*dst + i as u32, v);
                        }
                    } else {
                        let v = self.load_sym(st, p, slots)?;
                        for (i, v) in v.into_iter().enumerate() {
                            set!(*dst + i as u32, v);
                        }
                    }
                    next!();
                }
                Inst::Store1 { v, w, p } => {
                    let p = Self::op(st, base, *p);
                    if !st.parked.is_empty() && self.point(st, p)? {
                        continue;
                    }
                    let a = self.conc(st, p)?;
                    let v = Self::op(st, base, *v);
                    self.store(st, a, v, *w)?;
                    next!();
                }
                Inst::Store { vals, p } => {
                    let p = Self::op(st, base, *p);
                    if !st.parked.is_empty() && self.point(st, p)? {
                        continue;
                    }
                    let a = self.conc(st, p)?;
                    for (o, w, v) in vals.iter() {
                        let v = Self::op(st, base, *v);
                        self.store(st, a.wrapping_add(*o), v, *w)?;
                    }
                    next!();
                }
                Inst::Gep0 { dst, base: b, off } => {
                    let b = Self::op(st, base, *b);
                    let v = if b.e == 0 {
                        V::c(b.c.wrapping_add(*off))
                    } else {
                        V::of(bin(K::Add, b.e, cst(*off as u128, 64)))
                    };
                    set!(*dst, v);
                    next!();
                }
                Inst::Gep { dst, base: b, off, terms } => {
                    let b = Self::op(st, base, *b);
                    let mut conc = b.c.wrapping_add(*off);
                    let mut sym = b.e;
                    if b.e != 0 {
                        conc = *off;
                    }
                    for (o, w, sz) in terms.iter() {
                        let i = Self::op(st, base, *o);
                        if i.e == 0 {
                            let x = sext128(i.c as u128, *w) as i64;
                            conc = conc.wrapping_add(x.wrapping_mul(*sz as i64) as u64);
                        } else {
                            let x = expr::sext(i.e, 64);
                            let x = bin(K::Mul, x, cst(*sz as u128, 64));
                            sym = if sym == 0 { x } else { bin(K::Add, sym, x) };
                        }
                    }
                    let v = if sym == 0 {
                        V::c(conc)
                    } else {
                        V::of(bin(K::Add, sym, cst(conc as u128, 64)))
                    };
                    set!(*dst, v);
                    next!();
                }
                Inst::Alloca { dst, size } => {
                    let i = st.stack.len() as u64;
                    st.stack.push(Rc::new(Obj {
                        bytes: vec![0; *size as usize],
                        sym: None,
                        align: 16,
                        ro: false,
                    }));
                    set!(*dst, V::c((STACK0 + ((st.cur as u64) << TSHIFT) + i) << 32));
                    next!();
                }
                Inst::Moves(m) => {
                    if m.len() == 1 {
                        set!(m[0].0, Self::op(st, base, m[0].1));
                    } else {
                        let t: Vec<V> = m.iter().map(|x| Self::op(st, base, x.1)).collect();
                        for (i, v) in t.into_iter().enumerate() {
                            set!(m[i].0, v);
                        }
                    }
                    next!();
                }
                Inst::Br(t) => self.jump(st, *t),
                Inst::CondBr(c, t, f) => {
                    let c = Self::op(st, base, *c);
                    if c.e == 0 {
                        self.jump(st, if c.c & 1 == 1 { *t } else { *f });
                    } else {
                        self.branch_states(st, c.e, *t, *f)?;
                    }
                }
                Inst::Switch(s) => {
                    let v = Self::op(st, base, s.v);
                    if v.e == 0 {
                        let t = match s.cases.binary_search_by(|x| x.0.cmp(&v.c)) {
                            Ok(i) => s.cases[i].1,
                            Err(_) => s.default,
                        };
                        self.jump(st, t);
                    } else {
                        self.switch_sym(st, s, v.e)?;
                    }
                }
                Inst::Call(c) => {
                    let c: &'static CallI = unsafe { &*(c.as_ref() as *const CallI) };
                    self.call(st, c)?;
                }
                Inst::Intr(i) => {
                    let i: &'static IntrI = unsafe { &*(i.as_ref() as *const IntrI) };
                    self.intrinsic(st, base, i)?;
                    next!();
                }
                Inst::Ret(v) => {
                    if st.frames.len() == 1 && !st.parked.is_empty() {
                        self.thread_end(st)?;
                        continue;
                    }
                    let mut t = std::mem::take(&mut self.phi_tmp);
                    t.clear();
                    for o in v.iter() {
                        t.push(Self::op(st, base, *o));
                    }
                    let fr = st.frames.pop().unwrap();
                    st.stack.truncate(fr.sbase as usize);
                    st.regs.truncate(fr.base as usize);
                    let done = st.frames.is_empty();
                    if !done {
                        let cb = st.frames.last().unwrap().base;
                        for (i, v) in t.iter().enumerate().take(fr.nret as usize) {
                            st.regs[(cb + fr.dst) as usize + i] = *v;
                        }
                        st.frames.last_mut().unwrap().ip += 1;
                    }
                    self.phi_tmp = t;
                    if done {
                        return Err(End::Done);
                    }
                }
                Inst::Unreachable => {
                    return Err(End::Viol("memory".into(), "`unreachable` was reached".into()))
                }
                Inst::AtomicRmw { op, xchg, dst, p, v, w } => {
                    let p = Self::op(st, base, *p);
                    if !st.parked.is_empty() && self.point(st, p)? {
                        continue;
                    }
                    let a = self.conc(st, p)?;
                    let v = Self::op(st, base, *v);
                    let old = self.load(st, a, *w)?;
                    let nv = if *xchg { v } else { Self::bin_v(*op, *w, old, v) };
                    self.store(st, a, nv, *w)?;
                    set!(*dst, old);
                    next!();
                }
                Inst::CmpXchg { dst, p, e, n, w } => {
                    let p = Self::op(st, base, *p);
                    if !st.parked.is_empty() && self.point(st, p)? {
                        continue;
                    }
                    let a = self.conc(st, p)?;
                    let (e, n) = (Self::op(st, base, *e), Self::op(st, base, *n));
                    let old = self.load(st, a, *w)?;
                    let eq = Self::icmp_v(Pred::Eq, *w, old, e);
                    let nv = if eq.e == 0 {
                        if eq.c == 1 {
                            n
                        } else {
                            old
                        }
                    } else {
                        Self::ite_v(eq.e, n, old, *w)
                    };
                    self.store(st, a, nv, *w)?;
                    set!(*dst, old);
                    set!(*dst + 1, eq);
                    next!();
                }
                Inst::FBin(k, w, d, a, b) => {
                    let (a, b) = (Self::op(st, base, *a), Self::op(st, base, *b));
                    let (a, b) = (self.conc(st, a)?, self.conc(st, b)?);
                    let f = |x: f64, y: f64| match k {
                        b'a' => x + y,
                        b's' => x - y,
                        b'm' => x * y,
                        b'd' => x / y,
                        _ => x % y,
                    };
                    let r = if *w == 32 {
                        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                        let z = match k {
                            b'a' => x + y,
                            b's' => x - y,
                            b'm' => x * y,
                            b'd' => x / y,
                            _ => x % y,
                        };
                        z.to_bits() as u64
                    } else {
                        f(f64::from_bits(a), f64::from_bits(b)).to_bits()
                    };
                    set!(*d, V::c(r));
                    next!();
                }
                Inst::FCmp(k, w, d, a, b) => {
                    let (a, b) = (Self::op(st, base, *a), Self::op(st, base, *b));
                    let (a, b) = (self.conc(st, a)?, self.conc(st, b)?);
                    let (x, y) = if *w == 32 {
                        (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64)
                    } else {
                        (f64::from_bits(a), f64::from_bits(b))
                    };
                    let un = x.is_nan() || y.is_nan();
                    let r = match &k[..] {
                        "true" => true,
                        "false" => false,
                        "ord" => !un,
                        "uno" => un,
                        _ => {
                            let base = match &k[1..] {
                                "eq" => x == y,
                                "ne" => x != y && !un,
                                "lt" => x < y,
                                "le" => x <= y,
                                "gt" => x > y,
                                _ => x >= y,
                            };
                            if k.starts_with('u') {
                                un || base
                            } else {
                                base
                            }
                        }
                    };
                    set!(*d, V::c(r as u64));
                    next!();
                }
                Inst::FCast(k, w, w2, d, a) => {
                    let a = Self::op(st, base, *a);
                    let a = self.conc(st, a)?;
                    let asf = |x: u64| {
                        if *w == 32 {
                            f32::from_bits(x as u32) as f64
                        } else {
                            f64::from_bits(x)
                        }
                    };
                    let r = match &k[..] {
                        "uitofp" => {
                            if *w2 == 32 {
                                (a as f32).to_bits() as u64
                            } else {
                                (a as f64).to_bits()
                            }
                        }
                        "sitofp" => {
                            let s = sext128(a as u128, *w) as i64;
                            if *w2 == 32 {
                                (s as f32).to_bits() as u64
                            } else {
                                (s as f64).to_bits()
                            }
                        }
                        "fptoui" => (asf(a) as u64) & mask(*w2) as u64,
                        "fptosi" => (asf(a) as i64 as u64) & mask(*w2) as u64,
                        "fpext" => asf(a).to_bits(),
                        _ => (f64::from_bits(a) as f32).to_bits() as u64,
                    };
                    set!(*d, V::c(r));
                    next!();
                }
                Inst::Unsupported(s) => return Err(err!("unsupported instruction: {}", s)),
            }
        }
        if let Some(d) = self.cfg.deadline {
            if Instant::now() > d {
                self.incomplete = true;
                return Err(err!("time limit reached"));
            }
        }
        Ok(())
    }

    fn switch_sym(&mut self, st: &mut State, s: &'static Switch, e: Id) -> X<()> {
        // group the cases by target
        let mut groups: Vec<(u32, Id)> = vec![];
        let mut any = expr::fls();
        for (c, t) in &s.cases {
            let q = expr::eq(e, cst(*c as u128, s.w));
            if as_const(q) == Some(0) {
                continue;
            }
            any = expr::or(any, q);
            match groups.iter_mut().find(|g| g.0 == *t) {
                Some(g) => g.1 = expr::or(g.1, q),
                None => groups.push((*t, q)),
            }
        }
        let none = expr::not(any);
        match groups.iter_mut().find(|g| g.0 == s.default) {
            Some(g) => g.1 = expr::or(g.1, none),
            None => groups.push((s.default, none)),
        }
        let mut taken = None;
        for (t, q) in &groups {
            if st.model.eval(*q) == 1 {
                taken = Some((*t, *q));
                continue;
            }
            if as_const(*q) == Some(0) {
                continue;
            }
            if let Some(m) = self.sat(st, *q, false)? {
                let mut o = st.clone();
                Self::add_pc(&mut o, *q);
                o.model = m;
                o.depth += 1;
                self.jump(&mut o, *t);
                self.stats.forks += 1;
                self.work.push(o);
            }
        }
        let (t, q) = taken.ok_or_else(|| err!("internal: no switch case holds"))?;
        Self::add_pc(st, q);
        self.jump(st, t);
        Ok(())
    }

    fn call(&mut self, st: &mut State, c: &'static CallI) -> X<()> {
        let base = st.frames.last().unwrap().base;
        let fi = match c.target {
            Callee::Fn(f) => f,
            Callee::Ind(o) => {
                let v = Self::op(st, base, o);
                let a = self.conc(st, v)?;
                match addr_fn(a) {
                    Some(f) if (f as usize) < self.link.fns.len() => f,
                    _ => return Err(Self::mem_err("call through an invalid function pointer", a, 0)),
                }
            }
        };
        let mut fi = fi;
        let e = &mut self.link.fns[fi as usize];
        if e.builtin == -2 {
            // files are a matter of the harness, if it has them
            let own = !matches!(e.body, FnBody::Extern) && matches!(&e.name[..], "read" | "write" | "open64" | "__errno_location");
            e.builtin = if own { -1 } else { builtin_of(&e.name) as i32 };
        }
        if e.builtin >= 0 {
            let b = BS[e.builtin as usize];
            if b == B::Eprint {
                match self.eprint_fn {
                    Some(f) => fi = f,
                    None => {
                        st.frames.last_mut().unwrap().ip += 1;
                        return Ok(());
                    }
                }
            } else {
                let args: Vec<V> = c.args.iter().map(|o| Self::op(st, base, *o)).collect();
                return self.builtin(st, b, c, &args);
            }
        }
        let func = match &self.link.fns[fi as usize].body {
            FnBody::Parsed(f) => *f,
            _ => {
                if self.used.len() <= fi as usize {
                    self.used.resize(fi as usize + 1, false);
                }
                self.used[fi as usize] = true;
                self.link.func(fi).map_err(|e| err!("{}", e))?
            }
        };
        if st.frames.len() >= self.cfg.max_depth {
            return Err(End::Viol("stack".into(), "call depth limit".into()));
        }
        if func.nparams as usize != c.args.len() && (c.args.len() as u32) < func.nparams {
            return Err(err!("argument count mismatch calling {}", func.name));
        }
        let nb = st.regs.len() as u32;
        st.regs.resize((nb + func.nslots) as usize, V::c(0));
        for (i, o) in c.args.iter().enumerate().take(func.nparams as usize) {
            let v = Self::op(st, base, *o);
            st.regs[nb as usize + i] = v;
        }
        if c.nret > func.nret {
            return Err(err!("return value mismatch calling {}", func.name));
        }
        let sb = st.stack.len() as u32;
        st.frames.push(Frame {
            f: func,
            blk: 0,
            ip: 0,
            base: nb,
            sbase: sb,
            dst: c.dst,
            nret: c.nret,
        });
        Ok(())
    }

    fn builtin(&mut self, st: &mut State, b: B, c: &'static CallI, a: &[V]) -> X<()> {
        let base = st.frames.last().unwrap().base;
        let mut ret: Vec<V> = vec![];
        match b {
            B::Alloc | B::AllocZ => {
                let n = self.conc(st, a[0])?;
                let al = self.conc(st, a[1])?;
                ret.push(V::c(self.alloc(st, n, al)?));
            }
            B::CMalloc => {
                let n = self.conc(st, a[0])?;
                ret.push(V::c(self.alloc(st, n, 16)?));
            }
            B::Dealloc => {
                let p = self.conc(st, a[0])?;
                let n = self.conc(st, a[1])?;
                let al = self.conc(st, a[2])?;
                self.dealloc(st, p, Some((n, al)))?;
            }
            B::CFree => {
                let p = self.conc(st, a[0])?;
                if p != 0 {
                    self.dealloc(st, p, None)?;
                }
            }
            B::Realloc => {
                // ptr, old_size, align, new_size
                let p = self.conc(st, a[0])?;
                let os = self.conc(st, a[1])?;
                let al = self.conc(st, a[2])?;
                let ns = self.conc(st, a[3])?;
                let old = self.dealloc(st, p, Some((os, al)))?;
                let np = self.alloc(st, ns, al)?;
                let k = os.min(ns) as usize;
                let o = self.obj_mut(st, np)?;
                o.bytes[..k].copy_from_slice(&old.bytes[..k]);
                if let Some(s) = &old.sym {
                    if s[..k].iter().any(|x| *x != 0) {
                        let mut n = vec![0u32; ns as usize].into_boxed_slice();
                        n[..k].copy_from_slice(&s[..k]);
                        o.sym = Some(n);
                    }
                }
                ret.push(V::c(np));
            }
            B::Nop => {
                for _ in 0..c.nret {
                    ret.push(V::c(0));
                }
            }
            B::PanicFmt => {
                // last argument is the location
                let loc = a.last().map(|v| v.c).unwrap_or(0);
                return Err(End::Panic(self.location(st, loc)));
            }
            B::PanicOther => return Err(End::Panic("non-unwinding panic".into())),
            B::Abort => return Err(End::Panic("abort".into())),
            B::Memcpy => {
                let d = self.conc(st, a[0])?;
                let s = self.conc(st, a[1])?;
                let n = self.conc(st, a[2])?;
                self.memcpy(st, d, s, n)?;
                ret.push(V::c(d));
            }
            B::Memset => {
                let d = self.conc(st, a[0])?;
                let n = self.conc(st, a[2])?;
                let v = if a[1].e == 0 { V::c(a[1].c & 0xff) } else { V::of(expr::extract(a[1].e, 0, 8)) };
                self.memset(st, d, v, n)?;
                ret.push(V::c(d));
            }
            B::Memcmp | B::Bcmp => {
                let n = self.conc(st, a[2])?;
                let p = self.conc(st, a[0])?;
                let q = self.conc(st, a[1])?;
                let (x, xs) = self.read_bytes(st, p, n)?;
                let (y, ys) = self.read_bytes(st, q, n)?;
                if xs.is_none() && ys.is_none() {
                    let r: i32 = match x.cmp(&y) {
                        std::cmp::Ordering::Less => -1,
                        std::cmp::Ordering::Equal => 0,
                        std::cmp::Ordering::Greater => 1,
                    };
                    ret.push(V::c(r as u32 as u64));
                } else {
                    let byte = |b: &Vec<u8>, s: &Option<Vec<u32>>, i: usize| -> Id {
                        match s {
                            Some(s) if s[i] != 0 => s[i],
                            _ => cst(b[i] as u128, 8),
                        }
                    };
                    let mut r = cst(0, 32);
                    for i in (0..n as usize).rev() {
                        let u = byte(&x, &xs, i);
                        let v = byte(&y, &ys, i);
                        let eq = expr::eq(u, v);
                        let d = if b == B::Bcmp {
                            cst(1, 32)
                        } else {
                            let lt = bin(K::Ult, u, v);
                            expr::ite(lt, cst(u128::MAX, 32), cst(1, 32))
                        };
                        r = expr::ite(eq, r, d);
                    }
                    ret.push(V::of(r));
                }
            }
            B::Strlen => {
                let p = self.conc(st, a[0])?;
                let mut n = 0;
                loop {
                    let v = self.load(st, p + n, 8)?;
                    if v.e != 0 {
                        let v = self.conc(st, v)?;
                        if v == 0 {
                            break;
                        }
                    } else if v.c == 0 {
                        break;
                    }
                    n += 1;
                }
                ret.push(V::c(n));
            }
            B::RetZero => {
                for _ in 0..c.nret {
                    ret.push(V::c(0));
                }
            }
            B::SymMinus1 => ret.push(V::c(u32::MAX as u64)),
            B::RetArg2 => ret.push(a[2]),
            B::RandomKeys => {
                ret.push(V::c(self.cfg.random_keys.0));
                ret.push(V::c(self.cfg.random_keys.1));
            }
            B::Hash => {
                // (state, bytes, length, 1 for strings)
                let n = self.conc(st, a[2])?;
                let p = self.conc(st, a[1])?;
                let str_key = a[3].c == 1;
                let mut h = a[0].c;
                let mix = |h: u64, x: u64| (h.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
                if self.cfg.hash_mode >= 2 || (str_key && self.cfg.hash_mode == 1) {
                    h = mix(h, n);
                } else {
                    let (b, s) = self.read_bytes(st, p, n)?;
                    if s.is_some() {
                        return Err(err!("hash of a symbolic key outside the constant-hash mode"));
                    }
                    for x in b {
                        h = mix(h, x as u64);
                    }
                    h = mix(h, n);
                }
                // the table uses the top bits
                ret.push(V::c(h ^ (h >> 29)));
            }
            B::SymNew => {
                // (width) -> u64
                let w = self.conc(st, a[0])? as u32;
                let i = st.inputs.len() as u32;
                st.inputs.push(w as u8);
                let v = expr::var(i, w);
                ret.push(V::of(expr::zext(v, 64)));
            }
            B::SymAssume => {
                let v = a[0];
                if v.e == 0 {
                    if v.c & 1 == 0 {
                        return Err(End::Infeasible);
                    }
                } else {
                    let q = if expr::width(v.e) == 1 { v.e } else { expr::extract(v.e, 0, 1) };
                    if as_const(q) == Some(0) {
                        return Err(End::Infeasible);
                    }
                    if st.model.eval(q) != 1 {
                        match self.sat(st, q, true)? {
                            Some(m) => st.model = m,
                            None => return Err(End::Infeasible),
                        }
                    }
                    Self::add_pc(st, q);
                }
            }
            B::SymCheck => {
                // (cond, msg ptr, msg len)
                self.stats.checks += 1;
                let v = a[0];
                let q = if v.e == 0 {
                    cst((v.c & 1) as u128, 1)
                } else if expr::width(v.e) == 1 {
                    v.e
                } else {
                    expr::extract(v.e, 0, 1)
                };
                if as_const(q) != Some(1) {
                    let nq = expr::not(q);
                    if as_const(q).is_none() {
                        self.stats.sym_checks += 1;
                    }
                    self.solver.stats.asserts += 1;
                    let msg = {
                        let (b, _) = self.read_bytes(st, a[1].c, a[2].c)?;
                        String::from_utf8_lossy(&b).into_owned()
                    };
                    if as_const(q) == Some(0) {
                        return Err(End::Viol("check".into(), msg));
                    }
                    if let Some(m) = self.sat(st, nq, true)? {
                        // report from a copy in which it fails, go on where it holds
                        let mut bad = st.clone();
                        Self::add_pc(&mut bad, nq);
                        bad.model = m;
                        self.violation(&bad, "check", &msg);
                        if st.model.eval(q) != 1 {
                            match self.sat(st, q, true)? {
                                Some(m) => st.model = m,
                                None => return Err(End::Infeasible),
                            }
                        }
                        Self::add_pc(st, q);
                    }
                }
            }
            B::SymReach => {
                let i = self.conc(st, a[0])? as u32;
                *self.reach.entry(i).or_insert(0) += 1;
            }
            B::SymPanicMode => {
                let m = self.conc(st, a[0])? as u32;
                st.panic_mode = m;
            }
            B::SymObserve => st.obs.push((a[0], 64)),
            B::SymConc => {
                let v = self.conc(st, a[0])?;
                ret.push(V::c(v));
            }
            B::Threads => return self.run_threads(st, a),
            B::Yield => {
                // waiting: let another thread go on; being woken for no reason is allowed
                let cur = st.cur as usize;
                if st.parked.is_empty() || !self.schedule(st, true)? {
                    return Err(End::Viol("deadlock".into(), "all threads wait".into()));
                }
                let t = &mut st.parked[cur];
                for i in 0..c.nret as usize {
                    t.regs[(base + c.dst) as usize + i] = V::c(1);
                }
                t.frames.last_mut().unwrap().ip += 1;
                return Ok(());
            }
            B::LockSlow => {
                // the mutex is held: wait for the others
                let p = self.conc(st, a[0])?;
                let v = self.load(st, p, 32)?;
                let v = self.conc(st, v)?;
                if v != 0 {
                    if st.parked.is_empty() || !self.schedule(st, true)? {
                        return Err(End::Viol("deadlock".into(), "all threads wait".into()));
                    }
                    // looks again when it is its turn
                    return Ok(());
                }
                self.store(st, p, V::c(1), 32)?;
            }
            B::SymIsSym => ret.push(V::c((a[0].e != 0) as u64)),
            B::SymLive => {
                ret.push(V::c(st.live_allocs));
            }
            B::SymTrace => {
                if self.cfg.trace {
                    let p = self.conc(st, a[0])?;
                    let n = self.conc(st, a[1])?;
                    let (mut b, s) = self.read_bytes(st, p, n)?;
                    if let Some(s) = s {
                        for (i, e) in s.iter().enumerate() {
                            if *e != 0 {
                                b[i] = st.model.eval(*e) as u8;
                            }
                        }
                    }
                    eprintln!("[trace] {}", String::from_utf8_lossy(&b));
                }
            }
            B::Errno => {
                let a = self.link.sym_addr(MODULE_ANY, "__ksym_errno");
                let _ = a;
                return Err(err!("errno requested"));
            }
            B::Eprint | B::None => unreachable!(),
        }
        for (i, v) in ret.iter().enumerate().take(c.nret as usize) {
            st.regs[(base + c.dst) as usize + i] = *v;
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }

    fn location(&mut self, st: &State, loc: u64) -> String {
        let f = (|| -> X<String> {
            let p = self.load(st, loc, 64)?.c;
            let n = self.load(st, loc + 8, 64)?.c;
            let line = self.load(st, loc + 16, 32)?.c;
            let (b, _) = self.read_bytes(st, p, n)?;
            let s = String::from_utf8_lossy(&b).trim_end_matches('\0').to_string();
            Ok(format!("{}:{}", s, line))
        })();
        match f {
            Ok(s) => s,
            Err(_) => "unknown location".into(),
        }
    }

    fn intrinsic(&mut self, st: &mut State, base: u32, i: &'static IntrI) -> X<()> {
        let a: Vec<V> = i.args.iter().map(|o| Self::op(st, base, *o)).collect();
        let w = i.w;
        let d = (base + i.dst) as usize;
        let conc2 = a.iter().all(|v| v.e == 0) && w <= 64;
        match i.k {
            Intr::Memcpy | Intr::Memmove => {
                let n = self.conc(st, a[2])?;
                if n == 0 {
                    return Ok(());
                }
                let dp = self.conc(st, a[0])?;
                let sp = self.conc(st, a[1])?;
                self.memcpy(st, dp, sp, n)?;
            }
            Intr::Memset => {
                let n = self.conc(st, a[2])?;
                if n == 0 {
                    return Ok(());
                }
                let dp = self.conc(st, a[0])?;
                self.memset(st, dp, a[1], n)?;
            }
            Intr::AddO(s) | Intr::SubO(s) | Intr::MulO(s) => {
                if conc2 {
                    let (x, y) = (a[0].c as u128, a[1].c as u128);
                    let m = mask(w);
                    let (r, o) = if s {
                        let (x, y) = (sext128(x, w), sext128(y, w));
                        let z = match i.k {
                            Intr::AddO(_) => x + y,
                            Intr::SubO(_) => x - y,
                            _ => x * y,
                        };
                        let r = z as u128 & m;
                        (r, sext128(r, w) != z)
                    } else {
                        match i.k {
                            Intr::AddO(_) => ((x + y) & m, x + y > m),
                            Intr::SubO(_) => (x.wrapping_sub(y) & m, x < y),
                            _ => ((x * y) & m, x * y > m),
                        }
                    };
                    st.regs[d] = V::c(r as u64);
                    st.regs[d + 1] = V::c(o as u64);
                } else {
                    if w > 64 && !matches!(i.k, Intr::AddO(_) | Intr::SubO(_)) {
                        return Err(err!("wide overflow multiplication"));
                    }
                    let (x, y) = (a[0].id(w), a[1].id(w));
                    let (r, o) = match (i.k, s) {
                        (Intr::AddO(_), false) => {
                            let r = bin(K::Add, x, y);
                            let o = bin(K::Ult, r, x);
                            (r, o)
                        }
                        (Intr::SubO(_), false) => {
                            let r = bin(K::Sub, x, y);
                            (r, bin(K::Ult, x, y))
                        }
                        (Intr::MulO(_), false) => {
                            let r = bin(K::Mul, x, y);
                            let (xx, yy) = (expr::zext(x, 2 * w), expr::zext(y, 2 * w));
                            let p = bin(K::Mul, xx, yy);
                            let hi = expr::extract(p, w, w);
                            let z = expr::eq(hi, cst(0, w));
                            (r, expr::not(z))
                        }
                        (k, _) => {
                            let ww = if matches!(k, Intr::MulO(_)) { 2 * w } else { w + 1 };
                            let (xx, yy) = (expr::sext(x, ww), expr::sext(y, ww));
                            let kk = match k {
                                Intr::AddO(_) => K::Add,
                                Intr::SubO(_) => K::Sub,
                                _ => K::Mul,
                            };
                            let p = bin(kk, xx, yy);
                            let r = bin(kk, x, y);
                            let rr = expr::sext(r, ww);
                            let e = expr::eq(p, rr);
                            (r, expr::not(e))
                        }
                    };
                    st.regs[d] = V::of(r);
                    st.regs[d + 1] = V::of(o);
                }
            }
            Intr::AddSat(s) | Intr::SubSat(s) => {
                if s {
                    return Err(err!("signed saturating arithmetic"));
                }
                let (x, y) = (a[0].id(w), a[1].id(w));
                let v = if matches!(i.k, Intr::AddSat(_)) {
                    let r = bin(K::Add, x, y);
                    let o = bin(K::Ult, r, x);
                    expr::ite(o, cst(u128::MAX, w), r)
                } else {
                    let r = bin(K::Sub, x, y);
                    let o = bin(K::Ult, x, y);
                    expr::ite(o, cst(0, w), r)
                };
                st.regs[d] = V::of(v);
            }
            Intr::Min(s) | Intr::Max(s) => {
                let p = if s { Pred::Slt } else { Pred::Ult };
                let lt = Self::icmp_v(p, w, a[0], a[1]);
                let (x, y) = if matches!(i.k, Intr::Min(_)) { (a[0], a[1]) } else { (a[1], a[0]) };
                st.regs[d] = if lt.e == 0 {
                    if lt.c == 1 {
                        x
                    } else {
                        y
                    }
                } else {
                    Self::ite_v(lt.e, x, y, w)
                };
            }
            Intr::Abs => {
                let z = V::of(cst(0, w));
                let lt = Self::icmp_v(Pred::Slt, w, a[0], z);
                let n = Self::bin_v(BinOp::Sub, w, z, a[0]);
                st.regs[d] = if lt.e == 0 {
                    if lt.c == 1 {
                        n
                    } else {
                        a[0]
                    }
                } else {
                    Self::ite_v(lt.e, n, a[0], w)
                };
            }
            Intr::Cmp3(s) => {
                let p = if s { Pred::Slt } else { Pred::Ult };
                let lt = Self::icmp_v(p, w, a[0], a[1]);
                let gt = Self::icmp_v(p, w, a[1], a[0]);
                let rw = i.w2;
                let g = expr::ite(gt.id(1), cst(1, rw), cst(0, rw));
                st.regs[d] = V::of(expr::ite(lt.id(1), cst(u128::MAX, rw), g));
            }
            Intr::Ctpop => {
                let v = if conc2 {
                    V::c(a[0].c.count_ones() as u64)
                } else {
                    let x = a[0].id(w);
                    let mut s = cst(0, w);
                    for k in 0..w {
                        let b = expr::extract(x, k, 1);
                        let z = expr::zext(b, w);
                        s = bin(K::Add, s, z);
                    }
                    V::of(s)
                };
                st.regs[d] = v;
            }
            Intr::Ctlz | Intr::Cttz => {
                let lead = i.k == Intr::Ctlz;
                let v = if conc2 {
                    let x = a[0].c;
                    V::c(if x == 0 {
                        w as u64
                    } else if lead {
                        (x.leading_zeros() - (64 - w)) as u64
                    } else {
                        x.trailing_zeros() as u64
                    })
                } else {
                    let x = a[0].id(w);
                    let mut r = cst(w as u128, w);
                    // the deciding bit is tested last
                    for k in 0..w {
                        let bit = if lead { k } else { w - 1 - k };
                        let b = expr::extract(x, bit, 1);
                        let n = if lead { w - 1 - bit } else { bit };
                        r = expr::ite(b, cst(n as u128, w), r);
                    }
                    V::of(r)
                };
                st.regs[d] = v;
            }
            Intr::Bswap => {
                let x = a[0].id(w);
                let mut r = expr::extract(x, 0, 8);
                for k in 1..w / 8 {
                    let b = expr::extract(x, k * 8, 8);
                    r = expr::concat(r, b);
                }
                st.regs[d] = V::of(r);
            }
            Intr::Bitreverse => {
                let x = a[0].id(w);
                let mut r = expr::extract(x, 0, 1);
                for k in 1..w {
                    let b = expr::extract(x, k, 1);
                    r = expr::concat(r, b);
                }
                st.regs[d] = V::of(r);
            }
            Intr::Fshl | Intr::Fshr => {
                let s = self.conc(st, a[2])? % w as u64;
                if conc2 {
                    let x = ((a[0].c as u128) << w) | a[1].c as u128;
                    let r = if i.k == Intr::Fshl { (x << s) >> w } else { x >> s };
                    st.regs[d] = V::c((r & mask(w)) as u64);
                } else {
                    if w > 64 {
                        return Err(err!("wide funnel shift"));
                    }
                    let x = expr::concat(a[0].id(w), a[1].id(w));
                    let lo = if i.k == Intr::Fshl { w as u64 - s } else { s };
                    st.regs[d] = V::of(expr::extract(x, lo as u32, w));
                }
            }
            Intr::Copy => st.regs[d] = a[0],
            Intr::Trap => return Err(End::Panic("trap".into())),
            Intr::FUn(k) => {
                let x = self.conc(st, a[0])?;
                let f64v = if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let r = if w == 32 {
                    let v = f32::from_bits(x as u32);
                    match k {
                        "log10" => v.log10(),
                        "ceil" => v.ceil(),
                        "floor" => v.floor(),
                        _ => v.abs(),
                    }
                    .to_bits() as u64
                } else {
                    match k {
                        "log10" => f64v.log10(),
                        "ceil" => f64v.ceil(),
                        "floor" => f64v.floor(),
                        _ => f64v.abs(),
                    }
                    .to_bits()
                };
                st.regs[d] = V::c(r);
            }
            Intr::FToIntSat(s) => {
                let x = self.conc(st, a[0])?;
                let f = if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let r = match (s, i.w2) {
                    (false, 64) => f as u64,
                    (false, 32) => f as u32 as u64,
                    (true, 64) => f as i64 as u64,
                    (true, 32) => f as i32 as u32 as u64,
                    _ => return Err(err!("float conversion")),
                };
                st.regs[d] = V::c(r);
            }
        }
        Ok(())
    }
}
