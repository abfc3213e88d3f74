//! The SMT solver (libz3, through its C interface) and the query layer above it.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, n: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone)]
pub enum Res {
    Unsat,
    /// values of the variables of the slice: (var index, value)
    Sat(Rc<Vec<(u32, u64)>>),
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub byte_domain: u64,
    pub byte_confirmed: u64,
    pub solver_us: u64,
    pub asserts: u64,
    pub max_us: u64,
}

pub struct Solver {
    ctx: P,
    solver: P,
    bv: FxMap<Id, P>,
    bl: FxMap<Id, P>,
    cache: HashMap<Vec<Id>, Res>,
    tables: FxMap<Id, Rc<[u64; 4]>>,
    /// values of single-byte expressions for every value of their byte
    columns: FxMap<Id, Rc<[u128; 256]>>,
    pub stats: Stats,
    /// SMT-LIB text of some queries with their verdict, for a second solver
    pub dump: Vec<(String, bool)>,
    pub dump_every: u64,
    confirmed: std::collections::HashSet<Vec<Id>>,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            let l = CString::new("QF_BV").unwrap();
            let solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()));
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, solver, p);
            Solver {
                ctx,
                solver,
                bv: Default::default(),
                bl: Default::default(),
                cache: HashMap::new(),
                tables: Default::default(),
                columns: Default::default(),
                stats: Default::default(),
                dump: vec![],
                dump_every: 0,
                confirmed: Default::default(),
            }
        }
    }

    fn bool(&mut self, i: Id) -> P {
        if let Some(p) = self.bl.get(&i) {
            return *p;
        }
        let n = node(i);
        debug_assert_eq!(n.w, 1);
        let c = self.ctx;
        let r = unsafe {
            match n.k {
                K::Const => {
                    if nconst(&n) == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                K::And => {
                    let a = [self.bool(n.a), self.bool(n.b)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                K::Or => {
                    let a = [self.bool(n.a), self.bool(n.b)];
                    Z3_mk_or(c, 2, a.as_ptr())
                }
                K::Xor => {
                    let (a, b) = (self.bool(n.a), self.bool(n.b));
                    if as_const(n.b) == Some(1) {
                        Z3_mk_not(c, a)
                    } else {
                        Z3_mk_xor(c, a, b)
                    }
                }
                K::Eq => {
                    if node(n.a).w == 1 {
                        let (a, b) = (self.bool(n.a), self.bool(n.b));
                        Z3_mk_eq(c, a, b)
                    } else {
                        let (a, b) = (self.bv(n.a), self.bv(n.b));
                        Z3_mk_eq(c, a, b)
                    }
                }
                K::Ult | K::Ule | K::Slt | K::Sle => {
                    let (a, b) = (self.bv(n.a), self.bv(n.b));
                    match n.k {
                        K::Ult => Z3_mk_bvult(c, a, b),
                        K::Ule => Z3_mk_bvule(c, a, b),
                        K::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                K::Ite => {
                    let (x, a, b) = (self.bool(n.a), self.bool(n.b), self.bool(n.c));
                    Z3_mk_ite(c, x, a, b)
                }
                _ => {
                    let b = self.bv(i);
                    let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                    Z3_mk_eq(c, b, one)
                }
            }
        };
        self.bl.insert(i, r);
        r
    }

    fn bv(&mut self, i: Id) -> P {
        if let Some(p) = self.bv.get(&i) {
            return *p;
        }
        let n = node(i);
        let c = self.ctx;
        let w = n.w as u32;
        let r = unsafe {
            match n.k {
                K::Const => {
                    let v = nconst(&n);
                    let s = Z3_mk_bv_sort(c, w);
                    if w <= 64 {
                        Z3_mk_unsigned_int64(c, v as u64, s)
                    } else {
                        let t = CString::new(format!("{}", v)).unwrap();
                        Z3_mk_numeral(c, t.as_ptr(), s)
                    }
                }
                K::Var => {
                    let s = CString::new(format!("v{}_{}", n.a, w)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, w))
                }
                K::Ite if w > 1 => {
                    let (x, a, b) = (self.bool(n.a), self.bv(n.b), self.bv(n.c));
                    Z3_mk_ite(c, x, a, b)
                }
                K::Extract => {
                    let a = self.bv(n.a);
                    Z3_mk_extract(c, n.b + w - 1, n.b, a)
                }
                K::Concat => {
                    let (a, b) = (self.bv(n.a), self.bv(n.b));
                    Z3_mk_concat(c, a, b)
                }
                K::ZExt => {
                    let a = self.bv(n.a);
                    Z3_mk_zero_ext(c, w - node(n.a).w as u32, a)
                }
                K::SExt => {
                    let a = self.bv(n.a);
                    Z3_mk_sign_ext(c, w - node(n.a).w as u32, a)
                }
                K::Eq | K::Ult | K::Ule | K::Slt | K::Sle | K::Ite => {
                    let b = self.bool(i);
                    let s = Z3_mk_bv_sort(c, 1);
                    Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
                }
                k => {
                    let (a, b) = (self.bv(n.a), self.bv(n.b));
                    let f = match k {
                        K::Add => Z3_mk_bvadd,
                        K::Sub => Z3_mk_bvsub,
                        K::Mul => Z3_mk_bvmul,
                        K::UDiv => Z3_mk_bvudiv,
                        K::SDiv => Z3_mk_bvsdiv,
                        K::URem => Z3_mk_bvurem,
                        K::SRem => Z3_mk_bvsrem,
                        K::And => Z3_mk_bvand,
                        K::Or => Z3_mk_bvor,
                        K::Xor => Z3_mk_bvxor,
                        K::Shl => Z3_mk_bvshl,
                        K::LShr => Z3_mk_bvlshr,
                        K::AShr => Z3_mk_bvashr,
                        _ => unreachable!(),
                    };
                    f(c, a, b)
                }
            }
        };
        self.bv.insert(i, r);
        r
    }

    /// The constraints of `pc` that share variables (transitively) with `q`.
    fn slice(pc: &[Id], q: Id) -> Vec<Id> {
        let mut vars: Vec<u32> = vars_of(q).to_vec();
        let mut out = vec![q];
        let mut used = vec![false; pc.len()];
        loop {
            let mut changed = false;
            for (i, c) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let vs = vars_of(*c);
                if vs.iter().any(|v| vars.binary_search(v).is_ok()) {
                    used[i] = true;
                    out.push(*c);
                    for v in vs.iter() {
                        if let Err(p) = vars.binary_search(v) {
                            vars.insert(p, *v);
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        out.sort_unstable();
        out.dedup();
        out
    }

    /// The value of `i` (an expression over one byte) for each value of the byte.
    fn column(&mut self, i: Id) -> Rc<[u128; 256]> {
        if let Some(c) = self.columns.get(&i) {
            return c.clone();
        }
        let n = node(i);
        let m = mask(n.w as u32);
        let mut r = [0u128; 256];
        match n.k {
            K::Const => r = [nconst(&n); 256],
            K::Var => {
                for x in 0..256 {
                    r[x] = x as u128 & m;
                }
            }
            K::Ite => {
                let (c, a, b) = (self.column(n.a), self.column(n.b), self.column(n.c));
                for x in 0..256 {
                    r[x] = if c[x] == 1 { a[x] } else { b[x] };
                }
            }
            K::Extract => {
                let a = self.column(n.a);
                for x in 0..256 {
                    r[x] = (a[x] >> n.b) & m;
                }
            }
            K::Concat => {
                let (a, b) = (self.column(n.a), self.column(n.b));
                let s = node(n.b).w;
                for x in 0..256 {
                    r[x] = a[x] << s | b[x];
                }
            }
            K::ZExt => r = *self.column(n.a),
            K::SExt => {
                let a = self.column(n.a);
                let iw = node(n.a).w as u32;
                for x in 0..256 {
                    r[x] = sext128(a[x], iw) as u128 & m;
                }
            }
            k => {
                let (a, b) = (self.column(n.a), self.column(n.b));
                let aw = node(n.a).w as u32;
                for x in 0..256 {
                    r[x] = fold(k, aw, a[x], b[x]);
                }
            }
        }
        let r = Rc::new(r);
        self.columns.insert(i, r.clone());
        r
    }

    /// Truth table of a constraint over one variable of at most 8 bits.
    fn table(&mut self, i: Id, v: u32) -> Rc<[u64; 4]> {
        if let Some(t) = self.tables.get(&i) {
            return t.clone();
        }
        let w = v & 0xff;
        let mut t = [0u64; 4];
        let col = self.column(i);
        for x in 0..(1u64 << w) {
            if col[x as usize] == 1 {
                t[(x >> 6) as usize] |= 1 << (x & 63);
            }
        }
        if self.columns.len() > 4000 {
            self.columns.clear();
        }
        let t = Rc::new(t);
        self.tables.insert(i, t.clone());
        t
    }

    fn ask(&mut self, s: &[Id]) -> i32 {
        let t0 = Instant::now();
        let r = unsafe {
            Z3_solver_reset(self.ctx, self.solver);
            for x in s {
                let a = self.bool(*x);
                Z3_solver_assert(self.ctx, self.solver, a);
            }
            Z3_solver_check(self.ctx, self.solver)
        };
        self.stats.queries += 1;
        match r {
            1 => self.stats.sat += 1,
            -1 => self.stats.unsat += 1,
            _ => self.stats.unknown += 1,
        }
        let us = t0.elapsed().as_micros() as u64;
        self.stats.solver_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        r
    }

    /// Is `pc /\ q` satisfiable?  `pc` alone is known to be satisfiable.
    /// With `smt_only` the answer always comes from the SMT solver (or from the
    /// cache of its earlier answers); otherwise a slice over a single byte may be
    /// decided by its complete 256-entry truth table.
    pub fn check(&mut self, pc: &[Id], q: Id, smt_only: bool) -> Res {
        if let Some(v) = as_const(q) {
            return if v == 1 { Res::Sat(Rc::new(vec![])) } else { Res::Unsat };
        }
        let s = Self::slice(pc, q);
        if let Some(r) = self.cache.get(&s) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        if !smt_only {
            let v = vset_of(q);
            let vs = vars_of(q);
            if vs.len() == 1 && (vs[0] & 0xff) <= 8 && s.iter().all(|x| vset_of(*x) == v) {
                let mut acc = [u64::MAX; 4];
                for x in &s {
                    let t = self.table(*x, vs[0]);
                    for k in 0..4 {
                        acc[k] &= t[k];
                    }
                }
                self.stats.byte_domain += 1;
                // The solver has to agree: always at first, then now and then.
                if (self.confirmed.len() < 1000 || self.stats.byte_domain % 64 == 0) && self.confirmed.insert(s.clone()) {
                    let sat = self.ask(&s);
                    self.stats.byte_confirmed += 1;
                    if sat != if acc.iter().any(|w| *w != 0) { 1 } else { -1 } {
                        panic!("the solver and the truth table differ");
                    }
                }
                for k in 0..4 {
                    if acc[k] != 0 {
                        let x = (k as u64) * 64 + acc[k].trailing_zeros() as u64;
                        return Res::Sat(Rc::new(vec![(vs[0] >> 8, x)]));
                    }
                }
                return Res::Unsat;
            }
        }
        let t0 = Instant::now();
        let mut vars: Vec<u32> = vec![];
        for x in &s {
            vars.extend_from_slice(&vars_of(*x));
        }
        vars.sort_unstable();
        vars.dedup();
        let r = unsafe {
            Z3_solver_reset(self.ctx, self.solver);
            for x in &s {
                let a = self.bool(*x);
                Z3_solver_assert(self.ctx, self.solver, a);
            }
            let r = Z3_solver_check(self.ctx, self.solver);
            self.stats.queries += 1;
            if self.dump_every > 0
                && r != 0
                && self.stats.queries % self.dump_every == 0
                && self.dump.len() < 40
            {
                let t = CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver));
                self.dump.push((t.to_string_lossy().into_owned(), r == 1));
            }
            match r {
                -1 => {
                    self.stats.unsat += 1;
                    Res::Unsat
                }
                1 => {
                    self.stats.sat += 1;
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut vals = vec![];
                    for v in &vars {
                        let e = self.bv(var(v >> 8, v & 0xff));
                        let mut out: P = std::ptr::null_mut();
                        Z3_model_eval(self.ctx, m, e, true, &mut out);
                        let mut u = 0u64;
                        if !Z3_get_numeral_uint64(self.ctx, out, &mut u) {
                            panic!("no numeral in the model");
                        }
                        vals.push((v >> 8, u));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(Rc::new(vals))
                }
                _ => {
                    self.stats.unknown += 1;
                    Res::Unknown
                }
            }
        };
        let us = t0.elapsed().as_micros() as u64;
        self.stats.solver_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        self.cache.insert(s, r.clone());
        r
    }
}
