//! Two machines that run programs: one reads the Koopa IR through its API, the
//! other one reads LLVM IR text. They share nothing but memory and arithmetic.

use crate::sym;
use koopa::ir::entities::*;
use koopa::ir::*;
use std::collections::HashMap;

pub fn bad(m: &str) -> ! {
    sym::check(false, m);
    panic!()
}

fn fork(c: bool) -> bool {
    sym::conc(c as u64) != 0
}

fn need(c: bool, m: &str) {
    if !c {
        bad(m)
    }
}

#[derive(Clone, PartialEq)]
pub enum Ty {
    I1,
    I32,
    Void,
    Arr(usize, Box<Ty>),
    Ptr(Box<Ty>),
    Fun(Vec<Ty>, Box<Ty>),
}

impl Ty {
    pub fn of(t: &Type) -> Ty {
        match t.kind() {
            TypeKind::Int32 => Ty::I32,
            TypeKind::Unit => Ty::Void,
            TypeKind::Array(b, n) => Ty::Arr(*n, Box::new(Ty::of(b))),
            TypeKind::Pointer(b) => Ty::Ptr(Box::new(Ty::of(b))),
            TypeKind::Function(p, r) => Ty::Fun(p.iter().map(Ty::of).collect(), Box::new(Ty::of(r))),
        }
    }
    /// Cells of memory taken.
    pub fn cells(&self) -> usize {
        match self {
            Ty::Arr(n, b) => n * b.cells(),
            _ => 1,
        }
    }
    fn pointee(&self) -> &Ty {
        match self {
            Ty::Ptr(b) => b,
            _ => bad("LLVM: a pointer is needed here"),
        }
    }
}

#[derive(Clone)]
pub enum V {
    Undef,
    Int(i32),
    Bit(bool),
    Ptr(usize, isize),
    Null,
    Arr(Vec<V>),
}

pub fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Undef, V::Undef) => true,
        (V::Int(x), V::Int(y)) => x == y,
        (V::Ptr(o, x), V::Ptr(p, y)) => o == p && x == y,
        (V::Null, V::Null) => true,
        (V::Arr(x), V::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        _ => false,
    }
}

pub fn zero(t: &Ty) -> V {
    match t {
        Ty::I32 => V::Int(0),
        Ty::Arr(n, b) => V::Arr((0..*n).map(|_| zero(b)).collect()),
        _ => V::Null,
    }
}

pub fn undef(t: &Ty) -> V {
    match t {
        Ty::Arr(n, b) => V::Arr((0..*n).map(|_| undef(b)).collect()),
        _ => V::Undef,
    }
}

/// What a run can be seen to do.
pub enum Ev {
    /// An external function was called.
    Call(usize, Vec<V>),
    Ret(V),
    /// Undefined behaviour: nothing more is said.
    Fault,
    /// The bound on the length of runs.
    Fuel,
}

pub struct World {
    pub mem: Vec<Vec<V>>,
    pub evs: Vec<Ev>,
    pub ins: Vec<i32>,
    pub next_in: usize,
    pub fuel: usize,
    pub depth: usize,
}

/// Ends the run.
pub struct Stop;
type R<T> = Result<T, Stop>;

impl World {
    pub fn new(ins: &[i32], fuel: usize) -> World {
        World { mem: vec![], evs: vec![], ins: ins.to_vec(), next_in: 0, fuel, depth: 0 }
    }
    fn fault<T>(&mut self) -> R<T> {
        self.evs.push(Ev::Fault);
        Err(Stop)
    }
    fn tick(&mut self) -> R<()> {
        if self.fuel == 0 {
            self.evs.push(Ev::Fuel);
            return Err(Stop);
        }
        self.fuel -= 1;
        Ok(())
    }
    fn int(&mut self, v: &V) -> R<i32> {
        match v {
            V::Int(x) => Ok(*x),
            V::Undef => self.fault(),
            _ => bad("an integer is needed here"),
        }
    }
    fn external(&mut self, f: usize, args: Vec<V>, ret: &Ty) -> R<V> {
        self.evs.push(Ev::Call(f, args));
        Ok(match ret {
            Ty::I32 => {
                let x = self.ins[self.next_in % self.ins.len()];
                self.next_in += 1;
                V::Int(x)
            }
            t => zero(t),
        })
    }
    fn alloc(&mut self, t: &Ty) -> V {
        self.mem.push(vec![V::Undef; t.cells()]);
        V::Ptr(self.mem.len() - 1, 0)
    }
    fn put(cells: &mut [V], at: usize, v: &V) -> usize {
        match v {
            V::Arr(e) => e.iter().fold(at, |a, x| Self::put(cells, a, x)),
            x => {
                cells[at] = x.clone();
                at + 1
            }
        }
    }
    fn get(cells: &[V], at: usize, t: &Ty) -> V {
        match t {
            Ty::Arr(n, b) => {
                let w = b.cells();
                V::Arr((0..*n).map(|i| Self::get(cells, at + i * w, b)).collect())
            }
            _ => cells[at].clone(),
        }
    }
    fn spot(&mut self, p: &V, t: &Ty) -> R<(usize, usize)> {
        match p {
            V::Ptr(o, off) => {
                let n = self.mem[*o].len() as isize;
                if *off < 0 || *off + t.cells() as isize > n {
                    return self.fault();
                }
                Ok((*o, *off as usize))
            }
            V::Null | V::Undef => self.fault(),
            _ => bad("a pointer is needed here"),
        }
    }
    fn load(&mut self, p: &V, t: &Ty) -> R<V> {
        let (o, at) = self.spot(p, t)?;
        Ok(Self::get(&self.mem[o], at, t))
    }
    fn store(&mut self, p: &V, v: &V, t: &Ty) -> R<()> {
        let (o, at) = self.spot(p, t)?;
        Self::put(&mut self.mem[o], at, v);
        Ok(())
    }
    /// `p` moved by `i` things of type `t`.
    fn offset(&mut self, p: &V, i: i32, t: &Ty) -> R<V> {
        let i = sym::conc(i as u32 as u64) as u32 as i32;
        match p {
            V::Ptr(o, off) => Ok(V::Ptr(*o, *off + i as isize * t.cells() as isize)),
            V::Null | V::Undef => self.fault(),
            _ => bad("a pointer is needed here"),
        }
    }
}

/// Integer operations both languages have in common.
#[derive(Clone, Copy, PartialEq)]
pub enum A {
    Ne,
    Eq,
    Gt,
    Lt,
    Ge,
    Le,
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    And,
    Or,
    Xor,
    Shl,
    Lshr,
    Ashr,
}

fn arith(w: &mut World, op: A, a: &V, b: &V) -> R<i32> {
    let (a, b) = (w.int(a)?, w.int(b)?);
    Ok(match op {
        A::Ne => (a != b) as i32,
        A::Eq => (a == b) as i32,
        A::Gt => (a > b) as i32,
        A::Lt => (a < b) as i32,
        A::Ge => (a >= b) as i32,
        A::Le => (a <= b) as i32,
        A::Add => a.wrapping_add(b),
        A::Sub => a.wrapping_sub(b),
        A::Mul => a.wrapping_mul(b),
        A::Div | A::Rem => {
            if b == 0 || (a == i32::MIN && b == -1) {
                return w.fault();
            }
            if op == A::Div {
                a.wrapping_div(b)
            } else {
                a.wrapping_rem(b)
            }
        }
        A::And => a & b,
        A::Or => a | b,
        A::Xor => a ^ b,
        A::Shl | A::Lshr | A::Ashr => {
            if b as u32 >= 32 {
                return w.fault();
            }
            match op {
                A::Shl => a.wrapping_shl(b as u32),
                A::Lshr => (a as u32).wrapping_shr(b as u32) as i32,
                _ => a.wrapping_shr(b as u32),
            }
        }
    })
}

// ---------------------------------------------------------------- Koopa IR

pub struct KMach<'a> {
    p: &'a Program,
    globals: HashMap<Value, V>,
}

impl<'a> KMach<'a> {
    pub fn new(p: &'a Program, w: &mut World) -> Self {
        let mut m = KMach { p, globals: HashMap::new() };
        for g in p.inst_layout() {
            let d = p.borrow_value(*g);
            let init = match d.kind() {
                ValueKind::GlobalAlloc(a) => a.init(),
                _ => bad("not a global allocation"),
            };
            let id = p.borrow_value(init);
            let t = Ty::of(id.ty());
            let v = Self::global_const(p, &id);
            let ptr = w.alloc(&t);
            let _ = w.store(&ptr, &v, &t);
            m.globals.insert(*g, ptr);
        }
        m
    }
    fn global_const(p: &Program, d: &ValueData) -> V {
        match d.kind() {
            ValueKind::Integer(i) => V::Int(i.value()),
            ValueKind::ZeroInit(_) => zero(&Ty::of(d.ty())),
            ValueKind::Undef(_) => undef(&Ty::of(d.ty())),
            ValueKind::Aggregate(a) => {
                V::Arr(a.elems().iter().map(|e| Self::global_const(p, &p.borrow_value(*e))).collect())
            }
            _ => bad("not a constant"),
        }
    }
    fn val(&self, f: &FunctionData, env: &HashMap<Value, V>, v: Value) -> V {
        if let Some(x) = self.globals.get(&v) {
            return x.clone();
        }
        let d = f.dfg().value(v);
        match d.kind() {
            ValueKind::Integer(i) => V::Int(i.value()),
            ValueKind::ZeroInit(_) => zero(&Ty::of(d.ty())),
            ValueKind::Undef(_) => undef(&Ty::of(d.ty())),
            ValueKind::Aggregate(a) => V::Arr(a.elems().iter().map(|e| self.val(f, env, *e)).collect()),
            // not there: the program is not in order, which is not asked here
            _ => match env.get(&v) {
                Some(x) => x.clone(),
                None => {
                    sym::assume(false);
                    panic!()
                }
            },
        }
    }
    fn ty(&self, f: &FunctionData, v: Value) -> Ty {
        if self.globals.contains_key(&v) {
            Ty::of(self.p.borrow_value(v).ty())
        } else {
            Ty::of(f.dfg().value(v).ty())
        }
    }
    pub fn run(&self, w: &mut World, func: Function, args: Vec<V>) -> R<V> {
        let f = self.p.func(func);
        if f.dfg().bbs().is_empty() {
            let at = self.p.func_layout().iter().position(|x| *x == func).unwrap();
            let ret = match f.ty().kind() {
                TypeKind::Function(_, r) => Ty::of(r),
                _ => bad("not a function"),
            };
            return w.external(at, args, &ret);
        }
        w.tick()?;
        let mut env: HashMap<Value, V> = HashMap::new();
        for (p, a) in f.params().iter().zip(args) {
            env.insert(*p, a);
        }
        let mut bb = *f.layout().bbs().keys().next().unwrap();
        loop {
            w.tick()?;
            let mut next: Option<(BasicBlock, Vec<V>)> = None;
            for i in f.layout().bbs().node(&bb).unwrap().insts().keys() {
                let d = f.dfg().value(*i);
                let r = match d.kind() {
                    ValueKind::Alloc(_) => w.alloc(Ty::of(d.ty()).pointee()),
                    ValueKind::Load(l) => {
                        let p = self.val(f, &env, l.src());
                        w.load(&p, &Ty::of(d.ty()))?
                    }
                    ValueKind::Store(s) => {
                        let (v, p) = (self.val(f, &env, s.value()), self.val(f, &env, s.dest()));
                        w.store(&p, &v, &self.ty(f, s.value()))?;
                        V::Undef
                    }
                    ValueKind::GetPtr(g) => {
                        let (p, i) = (self.val(f, &env, g.src()), self.val(f, &env, g.index()));
                        let i = w.int(&i)?;
                        w.offset(&p, i, self.ty(f, g.src()).pointee())?
                    }
                    ValueKind::GetElemPtr(g) => {
                        let (p, i) = (self.val(f, &env, g.src()), self.val(f, &env, g.index()));
                        let i = w.int(&i)?;
                        match self.ty(f, g.src()).pointee() {
                            Ty::Arr(_, e) => w.offset(&p, i, e)?,
                            _ => bad("not a pointer to an array"),
                        }
                    }
                    ValueKind::Binary(b) => {
                        let op = match b.op() {
                            BinaryOp::NotEq => A::Ne,
                            BinaryOp::Eq => A::Eq,
                            BinaryOp::Gt => A::Gt,
                            BinaryOp::Lt => A::Lt,
                            BinaryOp::Ge => A::Ge,
                            BinaryOp::Le => A::Le,
                            BinaryOp::Add => A::Add,
                            BinaryOp::Sub => A::Sub,
                            BinaryOp::Mul => A::Mul,
                            BinaryOp::Div => A::Div,
                            BinaryOp::Mod => A::Rem,
                            BinaryOp::And => A::And,
                            BinaryOp::Or => A::Or,
                            BinaryOp::Xor => A::Xor,
                            BinaryOp::Shl => A::Shl,
                            BinaryOp::Shr => A::Lshr,
                            BinaryOp::Sar => A::Ashr,
                        };
                        let (a, b) = (self.val(f, &env, b.lhs()), self.val(f, &env, b.rhs()));
                        V::Int(arith(w, op, &a, &b)?)
                    }
                    ValueKind::Branch(b) => {
                        let c = self.val(f, &env, b.cond());
                        let (to, args) =
                            if fork(w.int(&c)? != 0) { (b.true_bb(), b.true_args()) } else { (b.false_bb(), b.false_args()) };
                        next = Some((to, args.iter().map(|a| self.val(f, &env, *a)).collect()));
                        V::Undef
                    }
                    ValueKind::Jump(j) => {
                        next = Some((j.target(), j.args().iter().map(|a| self.val(f, &env, *a)).collect()));
                        V::Undef
                    }
                    ValueKind::Call(c) => {
                        let args = c.args().iter().map(|a| self.val(f, &env, *a)).collect();
                        self.run(w, c.callee(), args)?
                    }
                    ValueKind::Return(r) => {
                        return Ok(match r.value() {
                            Some(v) => self.val(f, &env, v),
                            None => V::Null,
                        })
                    }
                    _ => bad("not an instruction"),
                };
                env.insert(*i, r);
            }
            match next {
                Some((to, args)) => {
                    for (p, a) in f.dfg().bb(to).params().iter().zip(args) {
                        env.insert(*p, a);
                    }
                    bb = to;
                }
                None => bad("a block without an end"),
            }
        }
    }
}

// ----------------------------------------------------------------- LLVM IR

pub enum O {
    Int(i32),
    Zero,
    Undef,
    Arr(Vec<(Ty, O)>),
    Local(usize),
    Global(usize),
}

enum I {
    Alloca(Ty),
    Load(Ty, O),
    Store(Ty, O, O),
    Gep(Ty, O, Vec<O>),
    Bin(A, O, O),
    Icmp(A, O, O),
    Zext(O),
    Br(usize),
    CondBr(O, usize, usize),
    Call(Ty, usize, Vec<(Ty, O)>),
    Ret(Option<(Ty, O)>),
}

struct Block {
    label: usize,
    phis: Vec<(usize, Ty, Vec<(O, usize)>)>,
    insts: Vec<(Option<usize>, I)>,
}

/// Names of one scope; each is defined once.
struct Names<'a> {
    all: Vec<&'a [u8]>,
    /// `None`: a label.
    def: Vec<Option<Option<Ty>>>,
    /// Uses, and the type each one expects.
    used: Vec<(usize, Option<Ty>)>,
}

impl<'a> Names<'a> {
    fn new() -> Self {
        Names { all: vec![], def: vec![], used: vec![] }
    }
    fn id(&mut self, n: &'a [u8]) -> usize {
        if let Some(i) = self.all.iter().position(|x| *x == n) {
            return i;
        }
        self.all.push(n);
        self.def.push(None);
        self.all.len() - 1
    }
    fn define(&mut self, n: &'a [u8], t: Option<Ty>) -> usize {
        let i = self.id(n);
        need(self.def[i].is_none(), "LLVM: a name is defined twice");
        self.def[i] = Some(t);
        i
    }
    fn usage(&mut self, n: &'a [u8], t: Option<Ty>) -> usize {
        let i = self.id(n);
        self.used.push((i, t));
        i
    }
    fn settle(&self) {
        for (i, t) in &self.used {
            match &self.def[*i] {
                None => bad("LLVM: a name is used but not defined"),
                Some(d) => need(d == t, "LLVM: a value is used with another type than it has"),
            }
        }
    }
}

struct Func<'a> {
    name: usize,
    ret: Ty,
    params: Vec<(Ty, usize)>,
    blocks: Vec<Block>,
    names: Names<'a>,
}

pub struct Module<'a> {
    names: Names<'a>,
    vars: Vec<(usize, Ty, O)>,
    funcs: Vec<Func<'a>>,
}

struct P<'a> {
    s: &'a [u8],
    at: usize,
}

fn word_byte(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'$' || c == b'.' || c == b'-'
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.at < self.s.len() && self.s[self.at] == b' ' {
            self.at += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.at < self.s.len() {
            self.s[self.at]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.at += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, c: u8) {
        need(self.eat(c), "LLVM: the text does not follow the grammar");
    }
    fn word(&mut self) -> &'a [u8] {
        self.ws();
        let a = self.at;
        while self.at < self.s.len() && word_byte(self.s[self.at]) {
            self.at += 1;
        }
        need(self.at > a, "LLVM: the text does not follow the grammar");
        &self.s[a..self.at]
    }
    fn kw(&mut self, k: &str) {
        need(self.word() == k.as_bytes(), "LLVM: the text does not follow the grammar");
    }
    fn try_kw(&mut self, k: &str) -> bool {
        let a = self.at;
        let c = self.peek();
        if word_byte(c) && self.word() == k.as_bytes() {
            return true;
        }
        self.at = a;
        false
    }
    fn name(&mut self, sigil: u8) -> &'a [u8] {
        self.want(sigil);
        need(self.at < self.s.len() && word_byte(self.s[self.at]), "LLVM: an empty name");
        self.word()
    }
    fn num(&mut self) -> i64 {
        let w = self.word();
        let (neg, d) = if w[0] == b'-' { (true, &w[1..]) } else { (false, w) };
        need(!d.is_empty() && d.len() < 12, "LLVM: not a number");
        let mut x = 0i64;
        for c in d {
            need(*c >= b'0' && *c <= b'9', "LLVM: not a number");
            x = x * 10 + (*c - b'0') as i64;
        }
        if neg {
            -x
        } else {
            x
        }
    }
    fn ty(&mut self) -> Ty {
        let mut t = if self.eat(b'[') {
            let n = self.num();
            need(n > 0, "LLVM: an array of no length");
            self.kw("x");
            let b = self.ty();
            need(b != Ty::Void, "LLVM: an array of nothing");
            self.want(b']');
            Ty::Arr(n as usize, Box::new(b))
        } else {
            match self.word() {
                b"i32" => Ty::I32,
                b"i1" => Ty::I1,
                b"void" => Ty::Void,
                _ => bad("LLVM: not a type"),
            }
        };
        loop {
            if self.eat(b'*') {
                need(t != Ty::Void, "LLVM: a pointer to nothing");
                t = Ty::Ptr(Box::new(t));
            } else if self.peek() == b'(' {
                self.at += 1;
                let mut ps = vec![];
                if !self.eat(b')') {
                    loop {
                        ps.push(self.ty());
                        if self.eat(b')') {
                            break;
                        }
                        self.want(b',');
                    }
                }
                self.want(b'*');
                t = Ty::Fun(ps, Box::new(t));
            } else {
                return t;
            }
        }
    }
    /// An operand of the given type.
    fn opnd(&mut self, t: &Ty, l: &mut Names<'a>, g: &mut Names<'a>) -> O {
        match self.peek() {
            b'%' => {
                let n = self.name(b'%');
                O::Local(l.usage(n, Some(t.clone())))
            }
            b'@' => {
                let n = self.name(b'@');
                O::Global(g.usage(n, Some(t.clone())))
            }
            b'[' => {
                self.at += 1;
                let (n, b) = match t {
                    Ty::Arr(n, b) => (*n, &**b),
                    _ => bad("LLVM: elements given for what is not an array"),
                };
                let mut es = vec![];
                loop {
                    let et = self.ty();
                    need(et == *b, "LLVM: an element of another type");
                    let e = self.opnd(&et, l, g);
                    es.push((et, e));
                    if self.eat(b']') {
                        break;
                    }
                    self.want(b',');
                }
                need(es.len() == n, "LLVM: the number of elements is wrong");
                O::Arr(es)
            }
            _ => {
                if self.try_kw("zeroinitializer") {
                    return O::Zero;
                }
                if self.try_kw("undef") {
                    return O::Undef;
                }
                need(*t == Ty::I32, "LLVM: a number for what is not an integer");
                let x = self.num();
                need(x >= i32::MIN as i64 && x <= u32::MAX as i64, "LLVM: a number that is too large");
                O::Int(x as i32)
            }
        }
    }
    fn typed(&mut self, l: &mut Names<'a>, g: &mut Names<'a>) -> (Ty, O) {
        let t = self.ty();
        let o = self.opnd(&t, l, g);
        (t, o)
    }
    fn eol(&mut self) {
        self.want(b'\n');
    }
    fn blank(&mut self) {
        while self.peek() == b'\n' {
            self.at += 1;
        }
    }
}

pub fn read_llvm(s: &[u8]) -> Module<'_> {
    let mut p = P { s, at: 0 };
    let mut g = Names::new();
    let mut vars = vec![];
    let mut funcs = vec![];
    loop {
        p.blank();
        match p.peek() {
            0 => break,
            b'@' => {
                let n = p.name(b'@');
                p.want(b'=');
                p.kw("global");
                let mut none = Names::new();
                let (t, o) = p.typed(&mut none, &mut g);
                need(none.all.is_empty(), "LLVM: a global refers to a local value");
                need(t != Ty::Void && t != Ty::I1, "LLVM: a global of a type that cannot be stored");
                let i = g.define(n, Some(Ty::Ptr(Box::new(t.clone()))));
                vars.push((i, t, o));
                p.eol();
            }
            _ => {
                let decl = match p.word() {
                    b"declare" => true,
                    b"define" => false,
                    _ => bad("LLVM: the text does not follow the grammar"),
                };
                let f = func(&mut p, &mut g, decl);
                funcs.push(f);
            }
        }
    }
    g.settle();
    Module { names: g, vars, funcs }
}

fn func<'a>(p: &mut P<'a>, g: &mut Names<'a>, decl: bool) -> Func<'a> {
    let ret = p.ty();
    let n = p.name(b'@');
    let mut l = Names::new();
    let mut params = vec![];
    p.want(b'(');
    if !p.eat(b')') {
        loop {
            let t = p.ty();
            need(t != Ty::Void, "LLVM: a parameter of no type");
            let i = if decl {
                0
            } else {
                let n = p.name(b'%');
                l.define(n, Some(t.clone()))
            };
            params.push((t, i));
            if p.eat(b')') {
                break;
            }
            p.want(b',');
        }
    }
    let fty = Ty::Fun(params.iter().map(|x| x.0.clone()).collect(), Box::new(ret.clone()));
    let name = g.define(n, Some(fty));
    if decl {
        p.eol();
        return Func { name, ret, params, blocks: vec![], names: l };
    }
    p.want(b'{');
    p.eol();
    let mut blocks: Vec<Block> = vec![];
    loop {
        p.blank();
        if p.eat(b'}') {
            p.eol();
            break;
        }
        // the label
        let n = p.word();
        p.want(b':');
        p.eol();
        let label = l.define(n, None);
        let mut b = Block { label, phis: vec![], insts: vec![] };
        loop {
            let dst = if p.peek() == b'%' {
                let n = p.name(b'%');
                p.want(b'=');
                Some(n)
            } else {
                None
            };
            let op = p.word();
            if op == b"phi" {
                need(b.insts.is_empty(), "LLVM: a phi that is not at the start of its block");
                let t = p.ty();
                let mut src = vec![];
                loop {
                    p.want(b'[');
                    let o = p.opnd(&t, &mut l, g);
                    p.want(b',');
                    let n = p.name(b'%');
                    src.push((o, l.usage(n, None)));
                    p.want(b']');
                    if !p.eat(b',') {
                        break;
                    }
                }
                p.eol();
                let d = match dst {
                    Some(d) => l.define(d, Some(t.clone())),
                    None => bad("LLVM: the result of a phi is dropped"),
                };
                b.phis.push((d, t, src));
                continue;
            }
            let (i, t) = inst(p, op, &mut l, g, &ret);
            p.eol();
            let d = match dst {
                Some(n) => {
                    need(t != Ty::Void, "LLVM: a name for what has no value");
                    Some(l.define(n, Some(t)))
                }
                None => {
                    need(t == Ty::Void, "LLVM: a value without a name");
                    None
                }
            };
            let end = matches!(i, I::Br(_) | I::CondBr(..) | I::Ret(_));
            b.insts.push((d, i));
            if end {
                break;
            }
        }
        blocks.push(b);
    }
    need(!blocks.is_empty(), "LLVM: a function without blocks");
    l.settle();
    // every phi names each edge into its block once
    let mut edges = vec![];
    for b in &blocks {
        match &b.insts[b.insts.len() - 1].1 {
            I::Br(t) => edges.push((b.label, *t)),
            I::CondBr(_, t, f) => {
                edges.push((b.label, *t));
                edges.push((b.label, *f));
            }
            _ => {}
        }
    }
    for (_, t) in &edges {
        need(*t != blocks[0].label, "LLVM: a jump to the entry block");
    }
    for b in &blocks {
        for (_, _, src) in &b.phis {
            let mut preds: Vec<usize> = edges.iter().filter(|e| e.1 == b.label).map(|e| e.0).collect();
            for (_, f) in src {
                match preds.iter().position(|x| x == f) {
                    Some(i) => {
                        preds.swap_remove(i);
                    }
                    None => bad("LLVM: a phi names an edge that is not there, or twice"),
                }
                need(src.iter().filter(|x| x.1 == *f).count() == 1, "LLVM: a phi names a block twice");
            }
            need(preds.is_empty(), "LLVM: a phi does not name all edges");
        }
    }
    Func { name, ret, params, blocks, names: l }
}

fn label<'a>(p: &mut P<'a>, l: &mut Names<'a>) -> usize {
    p.kw("label");
    let n = p.name(b'%');
    l.usage(n, None)
}

fn inst<'a>(p: &mut P<'a>, op: &[u8], l: &mut Names<'a>, g: &mut Names<'a>, ret: &Ty) -> (I, Ty) {
    let bin = match op {
        b"add" => Some(A::Add),
        b"sub" => Some(A::Sub),
        b"mul" => Some(A::Mul),
        b"sdiv" => Some(A::Div),
        b"srem" => Some(A::Rem),
        b"and" => Some(A::And),
        b"or" => Some(A::Or),
        b"xor" => Some(A::Xor),
        b"shl" => Some(A::Shl),
        b"lshr" => Some(A::Lshr),
        b"ashr" => Some(A::Ashr),
        _ => None,
    };
    if let Some(a) = bin {
        let (t, x) = p.typed(l, g);
        need(t == Ty::I32, "LLVM: arithmetic on what is not an integer");
        p.want(b',');
        let y = p.opnd(&t, l, g);
        return (I::Bin(a, x, y), Ty::I32);
    }
    match op {
        b"icmp" => {
            let a = match p.word() {
                b"ne" => A::Ne,
                b"eq" => A::Eq,
                b"sgt" => A::Gt,
                b"slt" => A::Lt,
                b"sge" => A::Ge,
                b"sle" => A::Le,
                _ => bad("LLVM: not a signed comparison"),
            };
            let (t, x) = p.typed(l, g);
            need(t == Ty::I32, "LLVM: a comparison of what is not an integer");
            p.want(b',');
            let y = p.opnd(&t, l, g);
            (I::Icmp(a, x, y), Ty::I1)
        }
        b"zext" => {
            let (t, x) = p.typed(l, g);
            need(t == Ty::I1, "LLVM: zext of what is not a bit");
            p.kw("to");
            let t = p.ty();
            need(t == Ty::I32, "LLVM: zext to what is not an integer");
            (I::Zext(x), t)
        }
        b"alloca" => {
            let t = p.ty();
            need(t != Ty::Void, "LLVM: memory of no type");
            (I::Alloca(t.clone()), Ty::Ptr(Box::new(t)))
        }
        b"load" => {
            let t = p.ty();
            p.want(b',');
            let (pt, o) = p.typed(l, g);
            need(*pt.pointee() == t, "LLVM: a load of another type");
            (I::Load(t.clone(), o), t)
        }
        b"store" => {
            let (t, v) = p.typed(l, g);
            p.want(b',');
            let (pt, o) = p.typed(l, g);
            need(*pt.pointee() == t, "LLVM: a store of another type");
            (I::Store(t, v, o), Ty::Void)
        }
        b"getelementptr" => {
            p.kw("inbounds");
            let t = p.ty();
            p.want(b',');
            let (pt, o) = p.typed(l, g);
            need(*pt.pointee() == t, "LLVM: getelementptr of another type");
            let mut idx = vec![];
            let mut at = t.clone();
            while p.eat(b',') {
                let (it, i) = p.typed(l, g);
                need(it == Ty::I32, "LLVM: an index that is not an integer");
                if !idx.is_empty() {
                    at = match at {
                        Ty::Arr(_, b) => *b,
                        _ => bad("LLVM: getelementptr into what is not an array"),
                    };
                }
                idx.push(i);
            }
            need(!idx.is_empty(), "LLVM: getelementptr without an index");
            (I::Gep(t, o, idx), Ty::Ptr(Box::new(at)))
        }
        b"br" => {
            if p.peek() == b'l' {
                return (I::Br(label(p, l)), Ty::Void);
            }
            let (t, c) = p.typed(l, g);
            need(t == Ty::I1, "LLVM: a branch on what is not a bit");
            p.want(b',');
            let a = label(p, l);
            p.want(b',');
            let b = label(p, l);
            (I::CondBr(c, a, b), Ty::Void)
        }
        b"call" => {
            let t = p.ty();
            let n = p.name(b'@');
            p.want(b'(');
            let mut args = vec![];
            if !p.eat(b')') {
                loop {
                    args.push(p.typed(l, g));
                    if p.eat(b')') {
                        break;
                    }
                    p.want(b',');
                }
            }
            let ft = Ty::Fun(args.iter().map(|a| a.0.clone()).collect(), Box::new(t.clone()));
            let f = g.usage(n, Some(ft));
            (I::Call(t.clone(), f, args), t)
        }
        b"ret" => {
            let at = p.at;
            let void = p.try_kw("void") && p.peek() == b'\n';
            if !void {
                p.at = at;
            }
            if void {
                need(*ret == Ty::Void, "LLVM: nothing is returned");
                return (I::Ret(None), Ty::Void);
            }
            let (t, o) = p.typed(l, g);
            need(t == *ret, "LLVM: what is returned has another type");
            (I::Ret(Some((t, o))), Ty::Void)
        }
        _ => bad("LLVM: not an instruction"),
    }
}

pub struct LMach<'a> {
    pub m: &'a Module<'a>,
    /// Addresses of globals.
    globals: Vec<V>,
}

impl<'a> LMach<'a> {
    pub fn new(m: &'a Module<'a>, w: &mut World) -> Self {
        let mut x = LMach { m, globals: vec![V::Undef; m.names.all.len()] };
        for (i, t, o) in &m.vars {
            let v = x.val(&[], o, t);
            let ptr = w.alloc(t);
            let _ = w.store(&ptr, &v, t);
            x.globals[*i] = ptr;
        }
        x
    }
    pub fn name(&self, f: usize) -> &[u8] {
        self.m.names.all[self.m.funcs[f].name]
    }
    pub fn var_name(&self, g: usize) -> &[u8] {
        self.m.names.all[self.m.vars[g].0]
    }
    fn val(&self, env: &[Option<V>], o: &O, t: &Ty) -> V {
        match o {
            O::Int(x) => V::Int(*x),
            O::Zero => zero(t),
            O::Undef => undef(t),
            O::Arr(e) => V::Arr(e.iter().map(|(t, x)| self.val(env, x, t)).collect()),
            O::Global(i) => self.globals[*i].clone(),
            O::Local(i) => match &env[*i] {
                Some(v) => v.clone(),
                None => bad("LLVM: a value is used before it is computed"),
            },
        }
    }
    pub fn run(&self, w: &mut World, at: usize, args: Vec<V>) -> R<V> {
        let f = &self.m.funcs[at];
        if f.blocks.is_empty() {
            return w.external(at, args, &f.ret);
        }
        w.tick()?;
        let mut env: Vec<Option<V>> = vec![None; f.names.all.len()];
        for (p, a) in f.params.iter().zip(args) {
            env[p.1] = Some(a);
        }
        let mut from = usize::MAX;
        let mut bb = 0;
        loop {
            w.tick()?;
            let b = &f.blocks[bb];
            let mut vs = vec![];
            for (d, t, src) in &b.phis {
                match src.iter().find(|x| x.1 == from) {
                    Some((o, _)) => vs.push((*d, self.val(&env, o, t))),
                    None => bad("LLVM: a phi has no value"),
                }
            }
            for (d, v) in vs {
                env[d] = Some(v);
            }
            let mut next = None;
            for (d, i) in &b.insts {
                let r = match i {
                    I::Alloca(t) => w.alloc(t),
                    I::Load(t, o) => {
                        let p = self.val(&env, o, t);
                        w.load(&p, t)?
                    }
                    I::Store(t, v, o) => {
                        let (v, p) = (self.val(&env, v, t), self.val(&env, o, &Ty::I32));
                        w.store(&p, &v, t)?;
                        V::Undef
                    }
                    I::Gep(t, o, idx) => {
                        let mut p = self.val(&env, o, &Ty::Ptr(Box::new(t.clone())));
                        let mut t = t;
                        for (k, i) in idx.iter().enumerate() {
                            let i = self.val(&env, i, &Ty::I32);
                            let i = w.int(&i)?;
                            if k > 0 {
                                t = match t {
                                    Ty::Arr(_, b) => b,
                                    _ => bad("LLVM: not an array"),
                                };
                            }
                            p = w.offset(&p, i, t)?;
                        }
                        p
                    }
                    I::Bin(op, a, b) => {
                        let (a, b) = (self.val(&env, a, &Ty::I32), self.val(&env, b, &Ty::I32));
                        V::Int(arith(w, *op, &a, &b)?)
                    }
                    I::Icmp(op, a, b) => {
                        let (a, b) = (self.val(&env, a, &Ty::I32), self.val(&env, b, &Ty::I32));
                        V::Bit(arith(w, *op, &a, &b)? != 0)
                    }
                    I::Zext(o) => match self.val(&env, o, &Ty::I1) {
                        V::Bit(b) => V::Int(b as i32),
                        _ => bad("LLVM: not a bit"),
                    },
                    I::Br(t) => {
                        next = Some(*t);
                        V::Undef
                    }
                    I::CondBr(c, t, e) => {
                        next = match self.val(&env, c, &Ty::I1) {
                            V::Bit(b) => Some(if fork(b) { *t } else { *e }),
                            _ => bad("LLVM: not a bit"),
                        };
                        V::Undef
                    }
                    I::Call(_, g, args) => {
                        let args = args.iter().map(|(t, o)| self.val(&env, o, t)).collect();
                        let k = self.m.funcs.iter().position(|x| x.name == *g).unwrap();
                        self.run(w, k, args)?
                    }
                    I::Ret(v) => {
                        return Ok(match v {
                            Some((t, o)) => self.val(&env, o, t),
                            None => V::Null,
                        })
                    }
                };
                if let Some(d) = d {
                    env[*d] = Some(r);
                }
            }
            from = b.label;
            let to = next.unwrap();
            bb = f.blocks.iter().position(|x| x.label == to).unwrap();
        }
    }
}

fn finish(w: &mut World, r: R<V>) {
    if let Ok(v) = r {
        w.evs.push(Ev::Ret(v));
    }
}

/// Runs function number `at` of `p` and of its LLVM text on the same inputs
/// and compares all that can be seen.
pub fn compare(p: &Program, text: &[u8], at: usize, args: &[i32], ins: &[i32], fuel: usize) {
    let f = p.func_layout()[at];
    let args: Vec<V> = args.iter().map(|x| V::Int(*x)).collect();
    let mut w = World::new(ins, fuel);
    let k = KMach::new(p, &mut w);
    let nglob = w.mem.len();
    let r = k.run(&mut w, f, args.clone());
    finish(&mut w, r);
    if let Some(Ev::Fuel) = w.evs.last() {
        // beyond the bound
        sym::assume(false);
    }
    let m = read_llvm(text);
    sym::check(m.vars.len() == p.inst_layout().len(), "LLVM: globals are missing or too many");
    sym::check(m.funcs.len() == p.func_layout().len(), "LLVM: functions are missing or too many");
    for (x, f) in m.funcs.iter().zip(p.func_layout()) {
        let f = p.func(*f);
        let t = Ty::Fun(x.params.iter().map(|y| y.0.clone()).collect(), Box::new(x.ret.clone()));
        sym::check(t == Ty::of(f.ty()), "LLVM: a function has another type");
        sym::check(x.blocks.is_empty() == f.dfg().bbs().is_empty(), "LLVM: definitions and declarations are mixed up");
    }
    let mut w2 = World::new(ins, 8 * fuel);
    let l = LMach::new(&m, &mut w2);
    // a name that nothing else of the program has is kept
    for (i, f) in p.func_layout().iter().enumerate() {
        let n = p.func(*f).name();
        let others = p.func_layout().iter().filter(|x| p.func(**x).name() == n).count()
            + p.inst_layout().iter().filter(|x| p.borrow_value(**x).name().as_ref().map_or(false, |y| y == n)).count();
        if n.starts_with('@') && others == 1 {
            sym::check(l.name(i) == n[1..].as_bytes(), "LLVM: the name of a function is not kept");
        }
    }
    let r = l.run(&mut w2, at, args);
    finish(&mut w2, r);
    sym::check(w.evs.len() == w2.evs.len(), "LLVM: another number of events");
    for (a, b) in w.evs.iter().zip(&w2.evs) {
        match (a, b) {
            (Ev::Fault, Ev::Fault) => {
                sym::reach(101);
                return;
            }
            (Ev::Ret(x), Ev::Ret(y)) => sym::check(same(x, y), "LLVM: another value is returned"),
            (Ev::Call(f, x), Ev::Call(g, y)) => {
                sym::check(f == g, "LLVM: another function is called");
                sym::check(x.len() == y.len(), "LLVM: another number of arguments");
                for (x, y) in x.iter().zip(y) {
                    sym::check(same(x, y), "LLVM: other arguments are passed");
                }
            }
            _ => sym::check(false, "LLVM: another event"),
        }
    }
    for (x, y) in w.mem.iter().zip(&w2.mem).take(nglob) {
        for (a, b) in x.iter().zip(y) {
            sym::check(same(a, b), "LLVM: other contents of a global");
        }
    }
    sym::reach(100);
}
