//! Hash-consed bit-vector expressions with simplification.
//!
//! Expressions live in one process-wide table; `Id` 0 means "no expression".

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::rc::Rc;

pub type Id = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Extract,
    Concat,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub k: K,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub d: u32,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: FxMap<Node, Id>,
    /// interned variable sets
    pub vsets: Vec<Rc<[u32]>>,
    vmap: HashMap<Rc<[u32]>, u32>,
    vunion: FxMap<(u32, u32), u32>,
    pub vset: Vec<u32>,
}

static mut CTX: Option<Ctx> = None;

#[inline(always)]
#[allow(static_mut_refs)]
pub fn ctx() -> &'static mut Ctx {
    unsafe { CTX.as_mut().unwrap_unchecked() }
}

pub fn init() {
    let mut c = Ctx {
        nodes: vec![],
        map: Default::default(),
        vsets: vec![],
        vmap: HashMap::new(),
        vunion: Default::default(),
        vset: vec![],
    };
    let e: Rc<[u32]> = Rc::from(vec![]);
    c.vsets.push(e.clone());
    c.vmap.insert(e, 0);
    // slot 0 is reserved
    c.nodes.push(Node { k: K::Const, w: 0, a: 0, b: 0, c: 0, d: 0 });
    c.vset.push(0);
    unsafe { CTX = Some(c) }
}

#[inline(always)]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

#[inline]
pub fn sext128(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

#[inline(always)]
pub fn node(i: Id) -> Node {
    ctx().nodes[i as usize]
}
#[inline(always)]
pub fn width(i: Id) -> u32 {
    ctx().nodes[i as usize].w as u32
}

impl Ctx {
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.vunion.get(&k) {
            return *r;
        }
        let mut v: Vec<u32> = self.vsets[a as usize].to_vec();
        v.extend_from_slice(&self.vsets[b as usize]);
        v.sort_unstable();
        v.dedup();
        let r = self.intern_vs(v);
        self.vunion.insert(k, r);
        r
    }
    fn intern_vs(&mut self, v: Vec<u32>) -> u32 {
        let rc: Rc<[u32]> = Rc::from(v);
        if let Some(r) = self.vmap.get(&rc) {
            return *r;
        }
        let id = self.vsets.len() as u32;
        self.vsets.push(rc.clone());
        self.vmap.insert(rc, id);
        id
    }
    fn mk(&mut self, n: Node) -> Id {
        if let Some(i) = self.map.get(&n) {
            return *i;
        }
        let id = self.nodes.len() as u32;
        let vs = match n.k {
            K::Const => 0,
            // a variable is identified by its index and its width
            K::Var => self.intern_vs(vec![(n.a << 8) | n.w as u32]),
            K::Extract | K::ZExt | K::SExt => self.vset[n.a as usize],
            K::Ite => {
                let x = self.union(self.vset[n.a as usize], self.vset[n.b as usize]);
                self.union(x, self.vset[n.c as usize])
            }
            _ => self.union(self.vset[n.a as usize], self.vset[n.b as usize]),
        };
        self.nodes.push(n);
        self.vset.push(vs);
        self.map.insert(n, id);
        id
    }
}

pub fn vars_of(i: Id) -> Rc<[u32]> {
    let c = ctx();
    c.vsets[c.vset[i as usize] as usize].clone()
}
pub fn vset_of(i: Id) -> u32 {
    ctx().vset[i as usize]
}

pub fn cst(v: u128, w: u32) -> Id {
    let v = v & mask(w);
    ctx().mk(Node {
        k: K::Const,
        w: w as u16,
        a: v as u32,
        b: (v >> 32) as u32,
        c: (v >> 64) as u32,
        d: (v >> 96) as u32,
    })
}
pub fn var(idx: u32, w: u32) -> Id {
    ctx().mk(Node { k: K::Var, w: w as u16, a: idx, b: 0, c: 0, d: 0 })
}
#[inline]
pub fn nconst(n: &Node) -> u128 {
    n.a as u128 | (n.b as u128) << 32 | (n.c as u128) << 64 | (n.d as u128) << 96
}
#[inline]
pub fn as_const(i: Id) -> Option<u128> {
    let n = node(i);
    if n.k == K::Const {
        Some(nconst(&n))
    } else {
        None
    }
}

pub fn fold(k: K, w: u32, a: u128, b: u128) -> u128 {
    // `w` is the operand width; comparisons return 0/1
    let m = mask(w);
    match k {
        K::Add => a.wrapping_add(b) & m,
        K::Sub => a.wrapping_sub(b) & m,
        K::Mul => a.wrapping_mul(b) & m,
        K::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        K::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        K::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        K::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        K::And => a & b,
        K::Or => a | b,
        K::Xor => a ^ b,
        K::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        K::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        K::AShr => {
            let x = sext128(a, w);
            let s = if b >= w as u128 { w as u128 - 1 } else { b };
            ((x >> s) as u128) & m
        }
        K::Eq => (a == b) as u128,
        K::Ult => (a < b) as u128,
        K::Ule => (a <= b) as u128,
        K::Slt => (sext128(a, w) < sext128(b, w)) as u128,
        K::Sle => (sext128(a, w) <= sext128(b, w)) as u128,
        _ => unreachable!(),
    }
}

fn raw2(k: K, w: u32, a: Id, b: Id) -> Id {
    ctx().mk(Node { k, w: w as u16, a, b, c: 0, d: 0 })
}

pub fn not(a: Id) -> Id {
    let w = width(a);
    bin(K::Xor, a, cst(u128::MAX, w))
}
pub fn is_not(a: Id) -> Option<Id> {
    // boolean negation only
    let n = node(a);
    if n.w == 1 && n.k == K::Xor && as_const(n.b) == Some(1) {
        Some(n.a)
    } else {
        None
    }
}
pub fn and(a: Id, b: Id) -> Id {
    bin(K::And, a, b)
}
pub fn or(a: Id, b: Id) -> Id {
    bin(K::Or, a, b)
}
pub fn eq(a: Id, b: Id) -> Id {
    bin(K::Eq, a, b)
}
pub fn tru() -> Id {
    cst(1, 1)
}
pub fn fls() -> Id {
    cst(0, 1)
}

/// Upper bound of the unsigned value of `i`.
pub fn umax(i: Id) -> u128 {
    umax_d(i, 6)
}
fn umax_d(i: Id, d: u32) -> u128 {
    let n = node(i);
    let m = mask(n.w as u32);
    if n.k == K::Const {
        return nconst(&n);
    }
    if d == 0 {
        return m;
    }
    match n.k {
        K::ZExt => umax_d(n.a, d - 1),
        K::And => umax_d(n.a, d - 1).min(umax_d(n.b, d - 1)),
        K::Or | K::Xor => {
            let x = umax_d(n.a, d - 1) | umax_d(n.b, d - 1);
            // all bits below the top one may be set
            let bits = 128 - x.leading_zeros();
            mask(bits).min(m)
        }
        K::Ite => umax_d(n.b, d - 1).max(umax_d(n.c, d - 1)),
        K::LShr => match as_const(n.b) {
            Some(s) if s < n.w as u128 => umax_d(n.a, d - 1) >> s,
            Some(_) => 0,
            None => umax_d(n.a, d - 1),
        },
        K::UDiv => match as_const(n.b) {
            Some(s) if s > 0 => umax_d(n.a, d - 1) / s,
            _ => m,
        },
        K::URem => match as_const(n.b) {
            Some(s) if s > 0 => (s - 1).min(umax_d(n.a, d - 1)),
            _ => m,
        },
        K::Shl => match as_const(n.b) {
            Some(s) if s < n.w as u128 => {
                let x = umax_d(n.a, d - 1);
                if x.leading_zeros() as u128 > s && (x << s) <= m {
                    x << s
                } else {
                    m
                }
            }
            _ => m,
        },
        K::Add => {
            let (x, y) = (umax_d(n.a, d - 1), umax_d(n.b, d - 1));
            match x.checked_add(y) {
                Some(s) if s <= m => s,
                _ => m,
            }
        }
        K::Mul => {
            let (x, y) = (umax_d(n.a, d - 1), umax_d(n.b, d - 1));
            match x.checked_mul(y) {
                Some(s) if s <= m => s,
                _ => m,
            }
        }
        K::Concat => {
            let wl = node(n.b).w as u32;
            (umax_d(n.a, d - 1) << wl) | mask(wl)
        }
        _ => m,
    }
}

/// Number of known trailing zero bits.
pub fn tz(i: Id, d: u32) -> u32 {
    let n = node(i);
    if n.k == K::Const {
        return (nconst(&n).trailing_zeros()).min(n.w as u32);
    }
    if d == 0 {
        return 0;
    }
    match n.k {
        K::Shl => match as_const(n.b) {
            Some(s) => (tz(n.a, d - 1) + s as u32).min(n.w as u32),
            None => 0,
        },
        K::Mul => (tz(n.a, d - 1) + tz(n.b, d - 1)).min(n.w as u32),
        K::Add | K::Sub | K::Or | K::Xor => tz(n.a, d - 1).min(tz(n.b, d - 1)),
        K::And => tz(n.a, d - 1).max(tz(n.b, d - 1)),
        K::ZExt | K::SExt => tz(n.a, d - 1),
        K::Ite => tz(n.b, d - 1).min(tz(n.c, d - 1)),
        K::Concat => {
            let t = tz(n.b, d - 1);
            let wl = node(n.b).w as u32;
            if t >= wl {
                wl + tz(n.a, d - 1)
            } else {
                t
            }
        }
        _ => 0,
    }
}

fn commut(k: K) -> bool {
    matches!(k, K::Add | K::Mul | K::And | K::Or | K::Xor | K::Eq)
}

/// Is `i` an ite-tree with constant leaves (bounded size)?
fn ite_consts(i: Id, budget: &mut u32) -> bool {
    if *budget == 0 {
        return false;
    }
    *budget -= 1;
    let n = node(i);
    match n.k {
        K::Const => true,
        K::Ite => ite_consts(n.b, budget) && ite_consts(n.c, budget),
        _ => false,
    }
}

fn map_ite1(i: Id, f: &dyn Fn(Id) -> Id) -> Id {
    let n = node(i);
    if n.k == K::Ite {
        let b = map_ite1(n.b, f);
        let c = map_ite1(n.c, f);
        ite(n.a, b, c)
    } else {
        f(i)
    }
}

pub fn bin(k: K, mut a: Id, mut b: Id) -> Id {
    let na = node(a);
    let nb = node(b);
    debug_assert_eq!(na.w, nb.w, "{:?} {:?} {:?}", k, na, nb);
    let w = na.w as u32;
    let rw = match k {
        K::Eq | K::Ult | K::Ule | K::Slt | K::Sle => 1,
        _ => w,
    };
    if na.k == K::Const && nb.k == K::Const {
        return cst(fold(k, w, nconst(&na), nconst(&nb)), rw);
    }
    let (mut na, mut nb) = (na, nb);
    if commut(k) {
        // constant to the right, otherwise by id
        let swap = if na.k == K::Const {
            true
        } else if nb.k == K::Const {
            false
        } else {
            a > b
        };
        if swap {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut na, &mut nb);
        }
    }
    let cb = if nb.k == K::Const { Some(nconst(&nb)) } else { None };
    let m = mask(w);
    match k {
        K::Add => {
            if cb == Some(0) {
                return a;
            }
            if let Some(c) = cb {
                if na.k == K::Add {
                    if let Some(c2) = as_const(na.b) {
                        return bin(K::Add, na.a, cst(c.wrapping_add(c2), w));
                    }
                }
            } else {
                // (x + c) + y  ->  (x + y) + c
                if na.k == K::Add {
                    if as_const(na.b).is_some() {
                        let s = bin(K::Add, na.a, b);
                        return bin(K::Add, s, na.b);
                    }
                }
                if nb.k == K::Add {
                    if as_const(nb.b).is_some() {
                        let s = bin(K::Add, a, nb.a);
                        return bin(K::Add, s, nb.b);
                    }
                }
            }
            if w == 1 {
                return bin(K::Xor, a, b);
            }
        }
        K::Sub => {
            if a == b {
                return cst(0, w);
            }
            if let Some(c) = cb {
                return bin(K::Add, a, cst(c.wrapping_neg(), w));
            }
            // (x + c) - x
            if na.k == K::Add && na.a == b {
                return na.b;
            }
            if na.k == K::Add && na.b == b {
                return na.a;
            }
            if na.k == K::Add && nb.k == K::Add && na.a == nb.a {
                return bin(K::Sub, na.b, nb.b);
            }
        }
        K::Mul => {
            if let Some(c) = cb {
                if c == 0 {
                    return b;
                }
                if c == 1 {
                    return a;
                }
                if c.is_power_of_two() {
                    return bin(K::Shl, a, cst(c.trailing_zeros() as u128, w));
                }
            }
        }
        K::UDiv => {
            if let Some(c) = cb {
                if c == 1 {
                    return a;
                }
                if c != 0 && c.is_power_of_two() {
                    return bin(K::LShr, a, cst(c.trailing_zeros() as u128, w));
                }
                if c != 0 && umax(a) < c {
                    return cst(0, w);
                }
            }
        }
        K::URem => {
            if let Some(c) = cb {
                if c != 0 && c.is_power_of_two() {
                    return bin(K::And, a, cst(c - 1, w));
                }
                if c != 0 && umax(a) < c {
                    return a;
                }
            }
        }
        K::And => {
            if a == b {
                return a;
            }
            if let Some(c) = cb {
                if c == 0 {
                    return b;
                }
                if c == m {
                    return a;
                }
                if na.k == K::And {
                    if let Some(c2) = as_const(na.b) {
                        return bin(K::And, na.a, cst(c & c2, w));
                    }
                }
                // low mask
                if (c & (c + 1)) == 0 {
                    let lw = 128 - c.leading_zeros();
                    if lw < w {
                        if umax(a) <= c {
                            return a;
                        }
                        let e = extract(a, 0, lw);
                        return zext(e, w);
                    }
                }
                if na.k == K::ZExt {
                    let iw = node(na.a).w as u32;
                    let x = bin(K::And, na.a, cst(c & mask(iw), iw));
                    return zext(x, w);
                }
                if na.k == K::Concat {
                    let lw = node(na.b).w as u32;
                    let hw = w - lw;
                    let h = bin(K::And, na.a, cst(c >> lw, hw));
                    let l = bin(K::And, na.b, cst(c & mask(lw), lw));
                    return concat(h, l);
                }
            }
            if w == 1 {
                if is_not(a) == Some(b) || is_not(b) == Some(a) {
                    return fls();
                }
                // absorption with a direct child
                if nb.k == K::And && (nb.a == a || nb.b == a) {
                    return b;
                }
                if na.k == K::And && (na.a == b || na.b == b) {
                    return a;
                }
            }
        }
        K::Or => {
            if a == b {
                return a;
            }
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                if c == m {
                    return b;
                }
                if na.k == K::Concat {
                    let lw = node(na.b).w as u32;
                    let hw = w - lw;
                    let h = bin(K::Or, na.a, cst(c >> lw, hw));
                    let l = bin(K::Or, na.b, cst(c & mask(lw), lw));
                    return concat(h, l);
                }
            }
            if w == 1 {
                if is_not(a) == Some(b) || is_not(b) == Some(a) {
                    return tru();
                }
            } else if w <= 128 {
                // disjoint: zext(lo) | (x << s)  ->  concat
                if let Some(r) = or_concat(a, b, w) {
                    return r;
                }
                if let Some(r) = or_concat(b, a, w) {
                    return r;
                }
            }
        }
        K::Xor => {
            if a == b {
                return cst(0, w);
            }
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                if na.k == K::Xor {
                    if let Some(c2) = as_const(na.b) {
                        return bin(K::Xor, na.a, cst(c ^ c2, w));
                    }
                }
                if w == 1 {
                    // negate comparisons where that stays simple
                    match na.k {
                        K::Ult => return bin(K::Ule, na.b, na.a),
                        K::Ule => return bin(K::Ult, na.b, na.a),
                        K::Slt => return bin(K::Sle, na.b, na.a),
                        K::Sle => return bin(K::Slt, na.b, na.a),
                        K::And => {
                            let x = not(na.a);
                            let y = not(na.b);
                            return bin(K::Or, x, y);
                        }
                        K::Or => {
                            let x = not(na.a);
                            let y = not(na.b);
                            return bin(K::And, x, y);
                        }
                        K::Ite => {
                            let x = not(na.b);
                            let y = not(na.c);
                            return ite(na.a, x, y);
                        }
                        _ => {}
                    }
                }
            }
        }
        K::Shl => {
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                if c >= w as u128 {
                    return cst(0, w);
                }
                let e = extract(a, 0, w - c as u32);
                return concat(e, cst(0, c as u32));
            }
        }
        K::LShr => {
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                if c >= w as u128 {
                    return cst(0, w);
                }
                let e = extract(a, c as u32, w - c as u32);
                return zext(e, w);
            }
        }
        K::AShr => {
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                let c = c.min(w as u128 - 1);
                let e = extract(a, c as u32, w - c as u32);
                return sext(e, w);
            }
        }
        K::Eq => {
            if a == b {
                return tru();
            }
            if w == 1 {
                if let Some(c) = cb {
                    return if c == 1 { a } else { not(a) };
                }
            }
            if let Some(c) = cb {
                match na.k {
                    K::ZExt => {
                        let iw = node(na.a).w as u32;
                        if c > mask(iw) {
                            return fls();
                        }
                        return bin(K::Eq, na.a, cst(c, iw));
                    }
                    K::SExt => {
                        let iw = node(na.a).w as u32;
                        let lo = c & mask(iw);
                        if (sext128(lo, iw) as u128) & m != c {
                            return fls();
                        }
                        return bin(K::Eq, na.a, cst(lo, iw));
                    }
                    K::Concat => {
                        let lw = node(na.b).w as u32;
                        let hw = w - lw;
                        let h = bin(K::Eq, na.a, cst(c >> lw, hw));
                        if as_const(h) == Some(0) {
                            return h;
                        }
                        let l = bin(K::Eq, na.b, cst(c & mask(lw), lw));
                        return and(h, l);
                    }
                    K::Add => {
                        if let Some(c2) = as_const(na.b) {
                            return bin(K::Eq, na.a, cst(c.wrapping_sub(c2), w));
                        }
                    }
                    K::Sub => {
                        if let Some(c2) = as_const(na.a) {
                            return bin(K::Eq, na.b, cst(c2.wrapping_sub(c), w));
                        }
                        if c == 0 {
                            return bin(K::Eq, na.a, na.b);
                        }
                    }
                    K::Xor => {
                        if let Some(c2) = as_const(na.b) {
                            return bin(K::Eq, na.a, cst(c ^ c2, w));
                        }
                        if c == 0 {
                            return bin(K::Eq, na.a, na.b);
                        }
                    }
                    K::Ite => {
                        // push into ite when the leaves are mostly constant
                        let lb = as_const(na.b).is_some();
                        let lc = as_const(na.c).is_some();
                        let mut bud = 600;
                        if (lb && lc) || ite_consts(a, &mut bud) {
                            let r = map_ite1(a, &|x| cst((as_const(x) == Some(c)) as u128, 1));
                            return r;
                        }
                        if lb || lc {
                            let x = bin(K::Eq, na.b, b);
                            let y = bin(K::Eq, na.c, b);
                            return ite(na.a, x, y);
                        }
                    }
                    _ => {}
                }
                if c > umax(a) {
                    return fls();
                }
                let t = tz(a, 6);
                if t > 0 && t < 128 && c & mask(t) != 0 {
                    return fls();
                }
            } else {
                if na.k == K::ZExt && nb.k == K::ZExt && node(na.a).w == node(nb.a).w {
                    return bin(K::Eq, na.a, nb.a);
                }
                if na.k == K::SExt && nb.k == K::SExt && node(na.a).w == node(nb.a).w {
                    return bin(K::Eq, na.a, nb.a);
                }
                if na.k == K::Concat && nb.k == K::Concat && node(na.a).w == node(nb.a).w {
                    let h = bin(K::Eq, na.a, nb.a);
                    if as_const(h) == Some(0) {
                        return h;
                    }
                    let l = bin(K::Eq, na.b, nb.b);
                    return and(h, l);
                }
                if na.k == K::Add && nb.k == K::Add {
                    if na.a == nb.a {
                        return bin(K::Eq, na.b, nb.b);
                    }
                    if na.b == nb.b {
                        return bin(K::Eq, na.a, nb.a);
                    }
                }
                // x + c == x
                if na.k == K::Add && na.a == b {
                    return bin(K::Eq, na.b, cst(0, w));
                }
                if nb.k == K::Add && nb.a == a {
                    return bin(K::Eq, nb.b, cst(0, w));
                }
            }
        }
        K::Ult => {
            if a == b {
                return fls();
            }
            if cb == Some(0) {
                return fls();
            }
            if let Some(c) = cb {
                if umax(a) < c {
                    return tru();
                }
                if c == 1 {
                    return bin(K::Eq, a, cst(0, w));
                }
                if na.k == K::ZExt {
                    let iw = node(na.a).w as u32;
                    if c > mask(iw) {
                        return tru();
                    }
                    return bin(K::Ult, na.a, cst(c, iw));
                }
                let mut bud = 600;
                if na.k == K::Ite && ite_consts(a, &mut bud) {
                    return map_ite1(a, &|x| cst((as_const(x).unwrap() < c) as u128, 1));
                }
                if na.k == K::Concat && as_const(na.a) == Some(0) {
                    let lw = node(na.b).w as u32;
                    if c > mask(lw) {
                        return tru();
                    }
                    return bin(K::Ult, na.b, cst(c, lw));
                }
            }
            if let Some(c) = if na.k == K::Const { Some(nconst(&na)) } else { None } {
                if c == m {
                    return fls();
                }
                if c >= umax(b) {
                    return fls();
                }
                if c == 0 {
                    let e = bin(K::Eq, b, cst(0, w));
                    return not(e);
                }
                if nb.k == K::ZExt {
                    let iw = node(nb.a).w as u32;
                    return bin(K::Ult, cst(c, iw), nb.a);
                }
                let mut bud = 600;
                if nb.k == K::Ite && ite_consts(b, &mut bud) {
                    return map_ite1(b, &|x| cst((as_const(x).unwrap() > c) as u128, 1));
                }
            }
            if na.k == K::ZExt && nb.k == K::ZExt && node(na.a).w == node(nb.a).w {
                return bin(K::Ult, na.a, nb.a);
            }
        }
        K::Ule => {
            // a <= b  ==  !(b < a); normalise constants to Ult
            if a == b {
                return tru();
            }
            if let Some(c) = cb {
                if c == m || umax(a) <= c {
                    return tru();
                }
                return bin(K::Ult, a, cst(c + 1, w));
            }
            if na.k == K::Const {
                let c = nconst(&na);
                if c == 0 {
                    return tru();
                }
                return bin(K::Ult, cst(c - 1, w), b);
            }
            if na.k == K::ZExt && nb.k == K::ZExt && node(na.a).w == node(nb.a).w {
                return bin(K::Ule, na.a, nb.a);
            }
        }
        K::Slt => {
            if a == b {
                return fls();
            }
            if na.k == K::ZExt && nb.k == K::ZExt {
                return bin(K::Ult, a, b);
            }
            if let Some(c) = cb {
                if na.k == K::ZExt {
                    if sext128(c, w) <= 0 {
                        return fls();
                    }
                    return bin(K::Ult, a, b);
                }
                if na.k == K::SExt {
                    let iw = node(na.a).w as u32;
                    let v = sext128(c, w);
                    let lo = -(1i128 << (iw - 1));
                    let hi = (1i128 << (iw - 1)) - 1;
                    if v <= lo {
                        return fls();
                    }
                    if v > hi {
                        return tru();
                    }
                    return bin(K::Slt, na.a, cst(v as u128, iw));
                }
                if na.k == K::Ite {
                    let mut bud = 600;
                    if ite_consts(a, &mut bud) {
                        return map_ite1(a, &|x| cst(fold(K::Slt, w, as_const(x).unwrap(), c), 1));
                    }
                }
            } else if na.k == K::Const {
                let c = nconst(&na);
                if nb.k == K::ZExt {
                    if sext128(c, w) < 0 {
                        return tru();
                    }
                    return bin(K::Ult, a, b);
                }
                if nb.k == K::SExt {
                    let iw = node(nb.a).w as u32;
                    let v = sext128(c, w);
                    let lo = -(1i128 << (iw - 1));
                    let hi = (1i128 << (iw - 1)) - 1;
                    if v < lo {
                        return tru();
                    }
                    if v >= hi {
                        return fls();
                    }
                    return bin(K::Slt, cst(v as u128, iw), nb.a);
                }
                if nb.k == K::Ite {
                    let mut bud = 600;
                    if ite_consts(b, &mut bud) {
                        return map_ite1(b, &|x| cst(fold(K::Slt, w, c, as_const(x).unwrap()), 1));
                    }
                }
            }
        }
        K::Sle => {
            if a == b {
                return tru();
            }
            let r = bin(K::Slt, b, a);
            return not_slt(r, a, b);
        }
        _ => {}
    }
    // distribute over an ite with constant leaves when the other side is constant
    if let Some(_c) = cb {
        if na.k == K::Ite && !matches!(k, K::Eq) {
            let mut bud = 24;
            if ite_consts(a, &mut bud) {
                return map_ite1(a, &|x| bin(k, x, b));
            }
        }
    }
    raw2(k, rw, a, b)
}

/// Negation of a `Slt` result, kept as `Sle` when it did not simplify.
fn not_slt(r: Id, a: Id, b: Id) -> Id {
    let n = node(r);
    if n.k == K::Slt && n.a == b && n.b == a {
        return raw2(K::Sle, 1, a, b);
    }
    if n.k == K::Slt {
        return raw2(K::Sle, 1, n.b, n.a);
    }
    not(r)
}

fn or_concat(hi: Id, lo: Id, w: u32) -> Option<Id> {
    // hi = concat(x, 0_s), lo fits in s bits
    let n = node(hi);
    if n.k != K::Concat {
        return None;
    }
    if as_const(n.b) != Some(0) {
        return None;
    }
    let s = node(n.b).w as u32;
    if umax(lo) <= mask(s) {
        let l = extract(lo, 0, s);
        let _ = w;
        return Some(concat(n.a, l));
    }
    None
}

pub fn ite(c: Id, a: Id, b: Id) -> Id {
    if a == b {
        return a;
    }
    if let Some(v) = as_const(c) {
        return if v == 1 { a } else { b };
    }
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if let Some(x) = is_not(c) {
        return ite(x, b, a);
    }
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or(c, b),
            (Some(0), None) => {
                let n = not(c);
                return and(n, b);
            }
            (None, Some(0)) => return and(c, a),
            (None, Some(1)) => {
                let n = not(c);
                return or(n, a);
            }
            _ => {}
        }
    }
    let na = node(a);
    let nb = node(b);
    if na.k == K::Ite && na.a == c {
        return ite(c, na.b, b);
    }
    if nb.k == K::Ite && nb.a == c {
        return ite(c, a, nb.c);
    }
    // share a common zext
    if na.k == K::ZExt && nb.k == K::ZExt && node(na.a).w == node(nb.a).w {
        let x = ite(c, na.a, nb.a);
        return zext(x, w);
    }
    if na.k == K::ZExt && nb.k == K::Const {
        let iw = node(na.a).w as u32;
        let cv = nconst(&nb);
        if cv <= mask(iw) {
            let x = ite(c, na.a, cst(cv, iw));
            return zext(x, w);
        }
    }
    if nb.k == K::ZExt && na.k == K::Const {
        let iw = node(nb.a).w as u32;
        let cv = nconst(&na);
        if cv <= mask(iw) {
            let x = ite(c, cst(cv, iw), nb.a);
            return zext(x, w);
        }
    }
    ctx().mk(Node { k: K::Ite, w: w as u16, a: c, b: a, c: b, d: 0 })
}

pub fn extract(a: Id, lo: u32, w: u32) -> Id {
    let n = node(a);
    let aw = n.w as u32;
    if lo == 0 && w == aw {
        return a;
    }
    debug_assert!(lo + w <= aw);
    match n.k {
        K::Const => return cst(nconst(&n) >> lo, w),
        K::Extract => return extract(n.a, n.b + lo, w),
        K::Concat => {
            let lw = node(n.b).w as u32;
            if lo + w <= lw {
                return extract(n.b, lo, w);
            }
            if lo >= lw {
                return extract(n.a, lo - lw, w);
            }
            let l = extract(n.b, lo, lw - lo);
            let h = extract(n.a, 0, w - (lw - lo));
            return concat(h, l);
        }
        K::ZExt => {
            let iw = node(n.a).w as u32;
            if lo >= iw {
                return cst(0, w);
            }
            if lo + w <= iw {
                return extract(n.a, lo, w);
            }
            let x = extract(n.a, lo, iw - lo);
            return zext(x, w);
        }
        K::SExt => {
            let iw = node(n.a).w as u32;
            if lo + w <= iw {
                return extract(n.a, lo, w);
            }
            if lo < iw {
                let x = extract(n.a, lo, iw - lo);
                return sext(x, w);
            }
        }
        K::Ite => {
            let (cb, cc) = (as_const(n.b), as_const(n.c));
            let mut bud = 600;
            if (cb.is_some() && cc.is_some()) || ite_consts(a, &mut bud) {
                return map_ite1(a, &|x| extract(x, lo, w));
            }
            if cb.is_some() || cc.is_some() {
                let x = extract(n.b, lo, w);
                let y = extract(n.c, lo, w);
                return ite(n.a, x, y);
            }
        }
        K::And | K::Or | K::Xor => {
            let x = extract(n.a, lo, w);
            let y = extract(n.b, lo, w);
            return bin(n.k, x, y);
        }
        K::Add | K::Sub | K::Mul if lo == 0 => {
            let x = extract(n.a, 0, w);
            let y = extract(n.b, 0, w);
            return bin(n.k, x, y);
        }
        _ => {}
    }
    ctx().mk(Node { k: K::Extract, w: w as u16, a, b: lo, c: 0, d: 0 })
}

pub fn concat(h: Id, l: Id) -> Id {
    let nh = node(h);
    let nl = node(l);
    let w = nh.w as u32 + nl.w as u32;
    if nh.k == K::Const && nl.k == K::Const {
        return cst(nconst(&nh) << nl.w | nconst(&nl), w);
    }
    if nh.k == K::Const && nconst(&nh) == 0 {
        return zext(l, w);
    }
    if nh.k == K::Extract && nl.k == K::Extract && nh.a == nl.a && nh.b == nl.b + nl.w as u32 {
        return extract(nl.a, nl.b, w);
    }
    // extract(x, lw..) ++ x'   where l is the low part reached without an extract node
    if nh.k == K::ZExt {
        let x = concat(nh.a, l);
        return zext(x, w);
    }
    if nl.k == K::Concat {
        let h2 = concat(h, nl.a);
        let n2 = node(h2);
        if n2.k != K::Concat {
            return concat(h2, nl.b);
        }
    }
    // ite(c, k1, k2) ++ ite(c, k3, k4)
    if nh.k == K::Ite && nl.k == K::Ite && nh.a == nl.a {
        let x = concat(nh.b, nl.b);
        let y = concat(nh.c, nl.c);
        return ite(nh.a, x, y);
    }
    ctx().mk(Node { k: K::Concat, w: w as u16, a: h, b: l, c: 0, d: 0 })
}

pub fn zext(a: Id, w: u32) -> Id {
    let n = node(a);
    if n.w as u32 == w {
        return a;
    }
    match n.k {
        K::Const => return cst(nconst(&n), w),
        K::ZExt => return zext(n.a, w),
        K::Ite => {
            let mut bud = 600;
            if ite_consts(a, &mut bud) {
                return map_ite1(a, &|x| zext(x, w));
            }
        }
        _ => {}
    }
    ctx().mk(Node { k: K::ZExt, w: w as u16, a, b: 0, c: 0, d: 0 })
}

pub fn sext(a: Id, w: u32) -> Id {
    let n = node(a);
    if n.w as u32 == w {
        return a;
    }
    match n.k {
        K::Const => return cst(sext128(nconst(&n), n.w as u32) as u128, w),
        K::SExt => return sext(n.a, w),
        K::ZExt => return zext(n.a, w),
        K::Ite => {
            let mut bud = 600;
            if ite_consts(a, &mut bud) {
                return map_ite1(a, &|x| sext(x, w));
            }
        }
        _ => {}
    }
    ctx().mk(Node { k: K::SExt, w: w as u16, a, b: 0, c: 0, d: 0 })
}

/// An assignment of the symbolic inputs, with an evaluation cache.
pub struct Model {
    pub vals: Vec<u64>,
    cache: std::cell::RefCell<FxMap<Id, u128>>,
}

impl Model {
    pub fn new(vals: Vec<u64>) -> Self {
        Model { vals, cache: Default::default() }
    }
    pub fn eval(&self, i: Id) -> u128 {
        let n = node(i);
        match n.k {
            K::Const => return nconst(&n),
            K::Var => {
                return self.vals.get(n.a as usize).copied().unwrap_or(0) as u128
                    & mask(n.w as u32)
            }
            _ => {}
        }
        if let Some(v) = self.cache.borrow().get(&i) {
            return *v;
        }
        let r = match n.k {
            K::Ite => {
                if self.eval(n.a) == 1 {
                    self.eval(n.b)
                } else {
                    self.eval(n.c)
                }
            }
            K::Extract => (self.eval(n.a) >> n.b) & mask(n.w as u32),
            K::Concat => self.eval(n.a) << node(n.b).w | self.eval(n.b),
            K::ZExt => self.eval(n.a),
            K::SExt => {
                let iw = node(n.a).w as u32;
                (sext128(self.eval(n.a), iw) as u128) & mask(n.w as u32)
            }
            k => {
                let aw = node(n.a).w as u32;
                fold(k, aw, self.eval(n.a), self.eval(n.b))
            }
        };
        self.cache.borrow_mut().insert(i, r);
        r
    }
}

pub fn show(i: Id, d: u32) -> String {
    let n = node(i);
    if d == 0 {
        return "..".into();
    }
    match n.k {
        K::Const => format!("{}:{}", nconst(&n), n.w),
        K::Var => format!("v{}:{}", n.a, n.w),
        K::Ite => format!("(ite {} {} {})", show(n.a, d - 1), show(n.b, d - 1), show(n.c, d - 1)),
        K::Extract => format!("{}[{}+:{}]", show(n.a, d - 1), n.b, n.w),
        K::ZExt | K::SExt => format!("({:?}{} {})", n.k, n.w, show(n.a, d - 1)),
        k => format!("({:?} {} {})", k, show(n.a, d - 1), show(n.b, d - 1)),
    }
}
