//! The front end accepts exactly the texts that the language allows, and what
//! it builds is what the text says.
//!
//! The reference reads the text with a parser and a checker of its own, which
//! stop at the first mistake.
use crate::c02::{Byte, Edited, BASE};
use crate::c03::{want, Want};
use crate::sym;
use crate::util::OPS;
use koopa::front::driver::Driver;
use koopa::front::span::{FileType, Span};
use koopa::ir::*;
use std::io::Read;

#[derive(Clone, PartialEq)]
pub enum Ty {
    I32,
    Unit,
    Arr(Box<Ty>, i64),
    Ptr(Box<Ty>),
    Fun(Vec<Ty>, Box<Ty>),
}

type Name = Vec<u8>;

enum V {
    Sym(Name),
    Int(i64),
    Undef,
    Zero,
    Agg(Vec<V>),
}

enum K {
    Alloc(Ty),
    Load(Name),
    Store(V, Name),
    GetPtr(Name, V),
    GetElemPtr(Name, V),
    Bin(usize, V, V),
    Call(Name, Vec<V>),
    Br(V, Name, Vec<V>, Name, Vec<V>),
    Jump(Name, Vec<V>),
    Ret(Option<V>),
}

struct Stmt {
    def: Option<Name>,
    kind: K,
}

struct Block {
    name: Name,
    params: Vec<(Name, Ty)>,
    stmts: Vec<Stmt>,
}

enum Item {
    Global(Name, Ty, V),
    Decl(Name, Vec<Ty>, Ty),
    Fun(Name, Vec<(Name, Ty)>, Ty, Vec<Block>),
}

/// Not a text of the language.
struct No;
type Res<T> = Result<T, No>;

const I32: usize = 0;
const UNDEF: usize = 1;
const ZERO: usize = 2;
const GLOBAL: usize = 3;
const ALLOC: usize = 4;
const LOAD: usize = 5;
const STORE: usize = 6;
const GETPTR: usize = 7;
const GETELEMPTR: usize = 8;
const BR: usize = 9;
const JUMP: usize = 10;
const CALL: usize = 11;
const RET: usize = 12;
const FUN: usize = 13;
const DECL: usize = 14;

struct Reader<'a> {
    s: &'a [u8],
    w: Want,
    from: usize,
    to: usize,
    line: usize,
}

impl<'a> Reader<'a> {
    fn new(s: &'a [u8]) -> Res<Self> {
        let mut r = Reader { s, w: Want::End, from: 0, to: 0, line: 1 };
        r.next()?;
        Ok(r)
    }
    fn next(&mut self) -> Res<()> {
        let (w, from, to) = want(self.s, self.to);
        for c in &self.s[self.from..from] {
            if *c == b'\n' {
                self.line += 1;
            }
        }
        self.w = w;
        self.from = from;
        self.to = to;
        if let Want::Bad = self.w {
            return Err(No);
        }
        Ok(())
    }
    fn is(&self, c: u8) -> bool {
        match self.w {
            Want::Other(d) => c == d,
            _ => false,
        }
    }
    fn key(&self) -> usize {
        match self.w {
            Want::Keyword(k) => k,
            _ => 99,
        }
    }
    fn eat(&mut self, c: u8) -> Res<()> {
        if !self.is(c) {
            return Err(No);
        }
        self.next()
    }
    fn eat_key(&mut self, k: usize) -> Res<()> {
        if self.key() != k {
            return Err(No);
        }
        self.next()
    }
    fn name(&mut self) -> Res<Name> {
        match self.w {
            Want::Symbol(a, b) => {
                self.next()?;
                Ok(self.s[a..b].to_vec())
            }
            _ => Err(No),
        }
    }
    fn list<T>(&mut self, f: fn(&mut Self) -> Res<T>) -> Res<Vec<T>> {
        self.eat(b'(')?;
        let mut v = vec![];
        if !self.is(b')') {
            v.push(f(self)?);
            while self.is(b',') {
                self.next()?;
                v.push(f(self)?);
            }
        }
        self.eat(b')')?;
        Ok(v)
    }
    fn opt_list<T>(&mut self, f: fn(&mut Self) -> Res<T>) -> Res<Vec<T>> {
        if self.is(b'(') { self.list(f) } else { Ok(vec![]) }
    }
    fn opt_ty(&mut self) -> Res<Ty> {
        if self.is(b':') {
            self.next()?;
            self.ty()
        } else {
            Ok(Ty::Unit)
        }
    }
    fn ty(&mut self) -> Res<Ty> {
        if self.key() == I32 {
            self.next()?;
            Ok(Ty::I32)
        } else if self.is(b'*') {
            self.next()?;
            Ok(Ty::Ptr(Box::new(self.ty()?)))
        } else if self.is(b'[') {
            self.next()?;
            let t = self.ty()?;
            self.eat(b',')?;
            let n = match self.w {
                Want::Int(n) if n > 0 => n,
                _ => return Err(No),
            };
            self.next()?;
            self.eat(b']')?;
            Ok(Ty::Arr(Box::new(t), n))
        } else if self.is(b'(') {
            let p = self.list(Self::ty)?;
            Ok(Ty::Fun(p, Box::new(self.opt_ty()?)))
        } else {
            Err(No)
        }
    }
    fn param(&mut self) -> Res<(Name, Ty)> {
        let n = self.name()?;
        self.eat(b':')?;
        Ok((n, self.ty()?))
    }
    fn value(&mut self) -> Res<V> {
        let v = match self.w {
            Want::Symbol(a, b) => V::Sym(self.s[a..b].to_vec()),
            Want::Int(i) => V::Int(i),
            Want::Keyword(UNDEF) => V::Undef,
            _ => return Err(No),
        };
        self.next()?;
        Ok(v)
    }
    fn init(&mut self) -> Res<V> {
        let v = match self.w {
            Want::Int(i) => V::Int(i),
            Want::Keyword(UNDEF) => V::Undef,
            Want::Keyword(ZERO) => V::Zero,
            Want::Other(b'{') => {
                let mut v = vec![];
                loop {
                    self.next()?;
                    v.push(self.init()?);
                    if !self.is(b',') {
                        break;
                    }
                }
                self.eat(b'}')?;
                return Ok(V::Agg(v));
            }
            _ => return Err(No),
        };
        self.next()?;
        Ok(v)
    }
    fn inst(&mut self) -> Res<K> {
        if let Want::Op(o) = self.w {
            self.next()?;
            let l = self.value()?;
            self.eat(b',')?;
            return Ok(K::Bin(o, l, self.value()?));
        }
        let k = self.key();
        if k != CALL && k != ALLOC && k != LOAD && k != GETPTR && k != GETELEMPTR {
            return Err(No);
        }
        self.next()?;
        if k == ALLOC {
            return Ok(K::Alloc(self.ty()?));
        }
        let n = self.name()?;
        if k == CALL {
            return Ok(K::Call(n, self.list(Self::value)?));
        }
        if k == LOAD {
            return Ok(K::Load(n));
        }
        self.eat(b',')?;
        let v = self.value()?;
        Ok(if k == GETPTR { K::GetPtr(n, v) } else { K::GetElemPtr(n, v) })
    }
    fn stmt(&mut self) -> Res<(Stmt, bool)> {
        if let Want::Symbol(..) = self.w {
            let n = self.name()?;
            self.eat(b'=')?;
            return Ok((Stmt { def: Some(n), kind: self.inst()? }, false));
        }
        let k = self.key();
        let line = self.line;
        let (kind, last) = if k == CALL {
            (self.inst()?, false)
        } else if k == STORE {
            self.next()?;
            let v = match self.w {
                Want::Symbol(..) => self.value()?,
                _ => self.init()?,
            };
            self.eat(b',')?;
            (K::Store(v, self.name()?), false)
        } else if k == BR {
            self.next()?;
            let c = self.value()?;
            self.eat(b',')?;
            let t = self.name()?;
            let ta = self.opt_list(Self::value)?;
            self.eat(b',')?;
            let f = self.name()?;
            (K::Br(c, t, ta, f, self.opt_list(Self::value)?), true)
        } else if k == JUMP {
            self.next()?;
            let t = self.name()?;
            (K::Jump(t, self.opt_list(Self::value)?), true)
        } else if k == RET {
            self.next()?;
            // The value has to be on the same line, so that it is not taken
            // for a label. Where both readings would do, neither is required.
            let same = self.line == line;
            let valued = match self.w {
                Want::Int(_) | Want::Keyword(UNDEF) => true,
                _ => false,
            };
            sym::assume(!(same && self.is(b'}')) && !(!same && valued));
            (K::Ret(if same { Some(self.value()?) } else { None }), true)
        } else {
            return Err(No);
        };
        Ok((Stmt { def: None, kind }, last))
    }
    fn block(&mut self) -> Res<Block> {
        let name = self.name()?;
        let params = self.opt_list(Self::param)?;
        self.eat(b':')?;
        let mut stmts = vec![];
        loop {
            let (s, last) = self.stmt()?;
            stmts.push(s);
            if last {
                return Ok(Block { name, params, stmts });
            }
        }
    }
    fn items(&mut self) -> Res<Vec<Item>> {
        let mut v = vec![];
        loop {
            if let Want::End = self.w {
                return Ok(v);
            }
            let k = self.key();
            if k != GLOBAL && k != FUN && k != DECL {
                return Err(No);
            }
            self.next()?;
            let n = self.name()?;
            if k == GLOBAL {
                self.eat(b'=')?;
                self.eat_key(ALLOC)?;
                let t = self.ty()?;
                self.eat(b',')?;
                v.push(Item::Global(n, t, self.init()?));
            } else if k == DECL {
                let p = self.list(Self::ty)?;
                v.push(Item::Decl(n, p, self.opt_ty()?));
            } else {
                let p = self.list(Self::param)?;
                let t = self.opt_ty()?;
                self.eat(b'{')?;
                let mut b = vec![self.block()?];
                while !self.is(b'}') {
                    b.push(self.block()?);
                }
                self.next()?;
                v.push(Item::Fun(n, p, t, b));
            }
        }
    }
}

/// What a block leads to.
fn succ(b: &Block) -> Vec<&Name> {
    match &b.stmts[b.stmts.len() - 1].kind {
        K::Br(_, t, _, f, _) => vec![t, f],
        K::Jump(t, _) => vec![t],
        _ => vec![],
    }
}

/// Checks the rules and compares with the program, or only checks the rules.
struct Checker<'a> {
    p: Option<&'a Program>,
    globals: Vec<(Name, Ty, Option<Value>)>,
    funcs: Vec<(Name, Vec<Ty>, Ty, Option<Function>)>,
    // of the current function
    f: Option<&'a FunctionData>,
    ret: Ty,
    blocks: &'a [Block],
    /// Reachable while a block is left out.
    without: Vec<Vec<bool>>,
    bbs: Vec<Option<BasicBlock>>,
    /// Name, type, block (none: argument), place in the block, value.
    locals: Vec<(Name, Ty, Option<usize>, usize, Option<Value>)>,
}

fn differs(c: bool, m: &str) {
    sym::check(c, m);
}

fn is_temp(n: &[u8]) -> bool {
    n[0] == b'%' && n[1..].iter().all(|c| *c >= b'0' && *c <= b'9')
}

fn ptr(t: &Ty) -> Ty {
    Ty::Ptr(Box::new(t.clone()))
}

fn same_ty(a: &Ty, t: &Type) -> bool {
    match (a, t.kind()) {
        (Ty::I32, TypeKind::Int32) => true,
        (Ty::Unit, TypeKind::Unit) => true,
        (Ty::Arr(a, n), TypeKind::Array(b, m)) => *n as usize == *m && same_ty(a, b),
        (Ty::Ptr(a), TypeKind::Pointer(b)) => same_ty(a, b),
        (Ty::Fun(p, r), TypeKind::Function(q, s)) => {
            p.len() == q.len() && p.iter().zip(q).all(|(x, y)| same_ty(x, y)) && same_ty(r, s)
        }
        _ => false,
    }
}

fn same_name(n: &Name, m: &Option<String>) -> bool {
    match m {
        Some(m) => !is_temp(n) && n[..] == *m.as_bytes(),
        None => is_temp(n),
    }
}

impl<'a> Checker<'a> {
    fn items(&mut self, items: &'a [Item]) -> Res<()> {
        let (mut gi, mut fi) = (0, 0);
        for i in items {
            let n = match i {
                Item::Global(n, ..) | Item::Decl(n, ..) | Item::Fun(n, ..) => n,
            };
            if self.globals.iter().any(|g| g.0 == *n) || self.funcs.iter().any(|f| f.0 == *n) {
                return Err(No);
            }
            match i {
                Item::Global(n, t, v) => {
                    let mut w = None;
                    let mut init = None;
                    if let Some(p) = self.p {
                        differs(gi < p.inst_layout().len(), "a global variable is missing");
                        let g = p.inst_layout()[gi];
                        let d = p.borrow_value(g);
                        differs(same_name(n, d.name()), "the name of a global variable differs");
                        differs(same_ty(&ptr(t), d.ty()), "the type of a global variable differs");
                        match d.kind() {
                            ValueKind::GlobalAlloc(a) => init = Some(a.init()),
                            _ => differs(false, "not a global variable"),
                        }
                        w = Some(g);
                        gi += 1;
                    }
                    self.val(v, t, init, (0, 0))?;
                    self.globals.push((n.clone(), ptr(t), w));
                }
                Item::Decl(n, ps, r) => {
                    let f = self.func(n, ps, r, &mut fi);
                    if let Some(f) = f {
                        differs(self.p.unwrap().func(f).layout().entry_bb().is_none(), "a declaration has a body");
                        differs(self.p.unwrap().func(f).params().is_empty(), "a declaration has parameter values");
                    }
                }
                Item::Fun(n, ps, r, bs) => {
                    let t = ps.iter().map(|x| x.1.clone()).collect::<Vec<_>>();
                    let f = self.func(n, &t, r, &mut fi);
                    self.body(f, ps, r, bs)?;
                }
            }
        }
        if let Some(p) = self.p {
            differs(p.inst_layout().len() == gi, "there are more global variables than in the text");
            differs(p.func_layout().len() == fi, "there are more functions than in the text");
        }
        Ok(())
    }

    fn func(&mut self, n: &Name, ps: &[Ty], r: &Ty, fi: &mut usize) -> Option<Function> {
        let mut w = None;
        if let Some(p) = self.p {
            differs(*fi < p.func_layout().len(), "a function is missing");
            let f = p.func_layout()[*fi];
            *fi += 1;
            let d = p.func(f);
            differs(d.name().as_bytes() == &n[..], "the name of a function differs");
            differs(same_ty(&Ty::Fun(ps.to_vec(), Box::new(r.clone())), d.ty()), "the type of a function differs");
            w = Some(f);
        }
        self.funcs.push((n.clone(), ps.to_vec(), r.clone(), w));
        w
    }

    fn index(&self, n: &Name) -> Option<usize> {
        self.blocks.iter().position(|b| b.name == *n)
    }

    /// Which blocks can be reached without passing `skip`.
    fn reachable(&self, skip: usize) -> Res<Vec<bool>> {
        let mut seen = vec![false; self.blocks.len()];
        let mut todo = vec![0];
        if skip == 0 {
            return Ok(seen);
        }
        seen[0] = true;
        while let Some(b) = todo.pop() {
            for s in succ(&self.blocks[b]) {
                // invalid if it does not exist or if it is the entry
                let s = self.index(s).ok_or(No)?;
                if s == 0 {
                    return Err(No);
                }
                if s != skip && !seen[s] {
                    seen[s] = true;
                    todo.push(s);
                }
            }
        }
        Ok(seen)
    }

    fn define(&mut self, n: &Name, t: &Ty, b: Option<usize>, at: usize, v: Option<Value>) -> Res<()> {
        if self.globals.iter().any(|g| g.0 == *n) || self.locals.iter().any(|l| l.0 == *n) {
            return Err(No);
        }
        self.locals.push((n.clone(), t.clone(), b, at, v));
        Ok(())
    }

    fn body(&mut self, f: Option<Function>, ps: &[(Name, Ty)], r: &Ty, bs: &'a [Block]) -> Res<()> {
        self.f = f.map(|f| self.p.unwrap().func(f));
        self.ret = r.clone();
        self.blocks = bs;
        self.locals.clear();
        for (i, b) in bs.iter().enumerate() {
            if bs[..i].iter().any(|c| c.name == b.name) {
                return Err(No);
            }
        }
        self.reachable(bs.len())?;
        self.without = vec![];
        for i in 0..bs.len() {
            let w = self.reachable(i)?;
            self.without.push(w);
        }
        // arguments
        for (i, (n, t)) in ps.iter().enumerate() {
            let mut w = None;
            if let Some(f) = self.f {
                differs(f.params().len() == ps.len(), "the number of parameters differs");
                let v = f.params()[i];
                differs(same_name(n, f.dfg().value(v).name()), "the name of a parameter differs");
                differs(same_ty(t, f.dfg().value(v).ty()), "the type of a parameter differs");
                match f.dfg().value(v).kind() {
                    ValueKind::FuncArgRef(a) => differs(a.index() == i, "the index of a parameter differs"),
                    _ => differs(false, "a parameter is not a reference to an argument"),
                }
                w = Some(v);
            }
            self.define(n, t, None, 0, w)?;
        }
        // the blocks in an order in which dominators come first
        let mut order = vec![0];
        let mut i = 0;
        while i < order.len() {
            for s in succ(&bs[order[i]]) {
                let s = self.index(s).unwrap();
                if !order.contains(&s) {
                    order.push(s);
                }
            }
            i += 1;
        }
        self.bbs = vec![None; bs.len()];
        if let Some(f) = self.f {
            differs(f.layout().bbs().len() == order.len(), "the number of blocks differs");
            self.bbs[0] = f.layout().entry_bb();
            // follow the jumps
            for b in &order {
                let bb = self.bbs[*b].unwrap();
                let node = f.layout().bbs().node(&bb);
                differs(node.is_some(), "a block is not in the layout");
                let last = node.unwrap().insts().back_key();
                differs(last.is_some(), "a block is empty");
                let k = f.dfg().value(*last.unwrap()).kind();
                let have = crate::util::targets(k);
                let want = succ(&bs[*b]);
                differs(have.len() == want.len(), "the targets of a jump differ");
                for (s, h) in want.iter().zip(have) {
                    let s = self.index(s).unwrap();
                    if self.bbs[s].is_none() {
                        differs(!self.bbs.contains(&Some(h)), "a jump leads to another block");
                        self.bbs[s] = Some(h);
                    }
                    differs(self.bbs[s] == Some(h), "a jump leads to another block");
                }
            }
            differs(f.layout().bbs().keys().next() == self.bbs[0].as_ref(), "the first block is not the entry");
        }
        for b in &order {
            let d = self.bbs[*b].map(|bb| self.f.unwrap().dfg().bb(bb));
            if let Some(d) = d {
                differs(same_name(&bs[*b].name, d.name()), "the name of a block differs");
                differs(d.params().len() == bs[*b].params.len(), "the number of block parameters differs");
            }
            for (i, (n, t)) in bs[*b].params.iter().enumerate() {
                let mut w = None;
                if let (Some(f), Some(d)) = (self.f, d) {
                    let v = d.params()[i];
                    differs(same_name(n, f.dfg().value(v).name()), "the name of a block parameter differs");
                    differs(same_ty(t, f.dfg().value(v).ty()), "the type of a block parameter differs");
                    match f.dfg().value(v).kind() {
                        ValueKind::BlockArgRef(a) => differs(a.index() == i, "the index of a block parameter differs"),
                        _ => differs(false, "a block parameter is not a reference to an argument"),
                    }
                    w = Some(v);
                }
                self.define(n, t, Some(*b), 0, w)?;
            }
        }
        for b in &order {
            let mut have: Vec<Value> = vec![];
            if let Some(bb) = self.bbs[*b] {
                let f = self.f.unwrap();
                have = f.layout().bbs().node(&bb).unwrap().insts().keys().copied().collect();
                differs(have.len() == bs[*b].stmts.len(), "the number of instructions differs");
            }
            for (i, s) in bs[*b].stmts.iter().enumerate() {
                let v = if have.is_empty() { None } else { Some(have[i]) };
                let t = self.stmt(&s.kind, v, (*b, i + 1))?;
                if let Some(v) = v {
                    let d = self.f.unwrap().dfg().value(v);
                    differs(same_ty(&t, d.ty()), "the type of an instruction differs");
                    differs(self.f.unwrap().layout().parent_bb(v) == self.bbs[*b], "an instruction has another block");
                    match &s.def {
                        Some(n) => differs(same_name(n, d.name()), "the name of an instruction differs"),
                        None => differs(d.name().is_none(), "an instruction without result has a name"),
                    }
                }
                if let Some(n) = &s.def {
                    if t == Ty::Unit {
                        return Err(No);
                    }
                    self.define(n, &t, Some(*b), i + 1, v)?;
                }
            }
        }
        self.f = None;
        self.locals.clear();
        Ok(())
    }

    /// The type and value of a symbol used at a place.
    fn sym(&self, n: &Name, (b, at): (usize, usize)) -> Res<(Ty, Option<Value>)> {
        for g in &self.globals {
            if g.0 == *n {
                return Ok((g.1.clone(), g.2));
            }
        }
        for l in &self.locals {
            if l.0 == *n {
                let ok = match l.2 {
                    None => true,
                    Some(d) if d == b => l.3 < at,
                    Some(d) => !self.without[d][b],
                };
                return if ok { Ok((l.1.clone(), l.4)) } else { Err(No) };
            }
        }
        Err(No)
    }

    fn use_sym(&self, n: &Name, have: Option<Value>, at: (usize, usize)) -> Res<Ty> {
        let (t, v) = self.sym(n, at)?;
        if self.p.is_some() {
            differs(v == have, "another operand than in the text");
        }
        Ok(t)
    }

    /// A value of the given type.
    fn val(&self, v: &V, t: &Ty, have: Option<Value>, at: (usize, usize)) -> Res<()> {
        if let V::Sym(n) = v {
            if self.use_sym(n, have, at)? != *t {
                return Err(No);
            }
            return Ok(());
        }
        if let V::Agg(e) = v {
            match t {
                Ty::Arr(t, n) if e.len() as i64 == *n => {
                    let elems = have.map(|h| {
                        self.data(h, |d| {
                            differs(same_ty(&Ty::Arr(t.clone(), *n), d.ty()), "the type of an aggregate differs");
                            match d.kind() {
                                ValueKind::Aggregate(a) => a.elems().to_vec(),
                                _ => {
                                    differs(false, "not an aggregate");
                                    vec![]
                                }
                            }
                        })
                    });
                    if let Some(x) = &elems {
                        differs(x.len() == e.len(), "the length of an aggregate differs");
                    }
                    for (i, v) in e.iter().enumerate() {
                        self.val(v, t, elems.as_ref().map(|x| x[i]), at)?;
                    }
                }
                _ => return Err(No),
            }
            return Ok(());
        }
        if let V::Int(_) = v {
            if *t != Ty::I32 {
                return Err(No);
            }
        }
        if let Some(h) = have {
            self.data(h, |d| {
                differs(same_ty(t, d.ty()), "the type of a constant differs");
                let ok = match (v, d.kind()) {
                    (V::Int(a), ValueKind::Integer(b)) => *a as i32 == b.value(),
                    (V::Undef, ValueKind::Undef(_)) => true,
                    (V::Zero, ValueKind::ZeroInit(_)) => true,
                    _ => false,
                };
                differs(ok, "another constant than in the text");
            });
        }
        Ok(())
    }

    fn data<T>(&self, v: Value, f: impl FnOnce(&entities::ValueData) -> T) -> T {
        match self.f {
            Some(d) if !v.is_global() => f(d.dfg().value(v)),
            _ => f(&self.p.unwrap().borrow_value(v)),
        }
    }

    fn vals(&self, v: &[V], t: &[Ty], have: Option<&[Value]>, at: (usize, usize)) -> Res<()> {
        if v.len() != t.len() {
            return Err(No);
        }
        if let Some(h) = have {
            differs(h.len() == v.len(), "the number of arguments differs");
        }
        for (i, v) in v.iter().enumerate() {
            self.val(v, &t[i], have.map(|h| h[i]), at)?;
        }
        Ok(())
    }

    fn params(&self, n: &Name) -> Vec<Ty> {
        self.blocks[self.index(n).unwrap()].params.iter().map(|p| p.1.clone()).collect()
    }

    fn stmt(&mut self, k: &K, v: Option<Value>, at: (usize, usize)) -> Res<Ty> {
        let kind = v.map(|v| self.f.unwrap().dfg().value(v).kind());
        /// The instruction, if there is one to compare with.
        macro_rules! inst {
            ($kind:ident) => {
                match kind {
                    None => None,
                    Some(ValueKind::$kind(i)) => Some(i),
                    _ => {
                        differs(false, "another instruction than in the text");
                        None
                    }
                }
            };
        }
        Ok(match k {
            K::Alloc(t) => {
                inst!(Alloc);
                ptr(t)
            }
            K::Load(n) => match self.use_sym(n, inst!(Load).map(|i| i.src()), at)? {
                Ty::Ptr(t) => *t,
                _ => return Err(No),
            },
            K::Store(x, n) => {
                let i = inst!(Store);
                match self.use_sym(n, i.map(|i| i.dest()), at)? {
                    Ty::Ptr(t) => self.val(x, &t, i.map(|i| i.value()), at)?,
                    _ => return Err(No),
                }
                Ty::Unit
            }
            K::GetPtr(n, x) => {
                let i = inst!(GetPtr);
                let t = self.use_sym(n, i.map(|i| i.src()), at)?;
                self.val(x, &Ty::I32, i.map(|i| i.index()), at)?;
                match t {
                    Ty::Ptr(_) => t,
                    _ => return Err(No),
                }
            }
            K::GetElemPtr(n, x) => {
                let i = inst!(GetElemPtr);
                let t = self.use_sym(n, i.map(|i| i.src()), at)?;
                self.val(x, &Ty::I32, i.map(|i| i.index()), at)?;
                match t {
                    Ty::Ptr(t) => match *t {
                        Ty::Arr(t, _) => Ty::Ptr(t),
                        _ => return Err(No),
                    },
                    _ => return Err(No),
                }
            }
            K::Bin(o, l, r) => {
                let i = inst!(Binary);
                if let Some(i) = i {
                    differs(i.op() == OPS[*o], "another operator than in the text");
                }
                self.val(l, &Ty::I32, i.map(|i| i.lhs()), at)?;
                self.val(r, &Ty::I32, i.map(|i| i.rhs()), at)?;
                Ty::I32
            }
            K::Call(n, a) => {
                let i = inst!(Call);
                let f = self.funcs.iter().find(|f| f.0 == *n).ok_or(No)?;
                if let Some(i) = i {
                    differs(Some(i.callee()) == f.3, "another function is called");
                }
                self.vals(a, &f.1, i.map(|i| i.args()), at)?;
                f.2.clone()
            }
            K::Br(c, t, ta, f, fa) => {
                let i = inst!(Branch);
                self.val(c, &Ty::I32, i.map(|i| i.cond()), at)?;
                self.vals(ta, &self.params(t), i.map(|i| i.true_args()), at)?;
                self.vals(fa, &self.params(f), i.map(|i| i.false_args()), at)?;
                if t == f && !ta.is_empty() {
                    return Err(No);
                }
                Ty::Unit
            }
            K::Jump(t, a) => {
                let i = inst!(Jump);
                self.vals(a, &self.params(t), i.map(|i| i.args()), at)?;
                Ty::Unit
            }
            K::Ret(x) => {
                let i = inst!(Return);
                if x.is_none() != (self.ret == Ty::Unit) {
                    return Err(No);
                }
                let have = i.and_then(|i| i.value());
                if self.p.is_some() {
                    differs(have.is_some() == x.is_some(), "a value is returned, or none");
                }
                if let Some(x) = x {
                    let t = self.ret.clone();
                    self.val(x, &t, have, at)?;
                }
                Ty::Unit
            }
        })
    }
}

fn reference(s: &[u8], p: Option<&Program>) -> Res<()> {
    let items = Reader::new(s)?.items()?;
    let mut c = Checker {
        p: None,
        globals: vec![],
        funcs: vec![],
        f: None,
        ret: Ty::Unit,
        blocks: &[],
        without: vec![],
        bbs: vec![],
        locals: vec![],
    };
    // the rules first: there is nothing to compare with what breaks them
    c.items(&items)?;
    if p.is_some() {
        let mut c = Checker { p, globals: vec![], funcs: vec![], f: None, ret: Ty::Unit, blocks: &[],
            without: vec![], bbs: vec![], locals: vec![] };
        c.items(&items)?;
    }
    Ok(())
}

/// Keeps what has been read.
struct Keep<R: Read> {
    r: R,
    s: Vec<u8>,
}

impl<R: Read> Read for Keep<R> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let n = self.r.read(out)?;
        self.s.extend_from_slice(&out[..n]);
        Ok(n)
    }
}

/// The front end and the reference agree.
pub fn agree<R: Read>(r: R) {
    // or other things are done with the same texts
    if crate::c19::instead() {
        return crate::c19::same(r);
    }
    if crate::c20::instead() {
        return crate::c20::same(r);
    }
    #[cfg(feature = "nolog")]
    return crate::c18::same(r);
    #[cfg(not(feature = "nolog"))]
    agree_(r)
}

#[allow(dead_code)]
fn agree_<R: Read>(r: R) {
    let mut k = Keep { r, s: vec![] };
    let p = Driver::new(FileType::Buffer, &mut k).generate_program().ok();
    let errors = Span::error_num();
    if p.is_none() {
        let mut b = [0];
        while let Ok(1) = k.read(&mut b) {}
    }
    let ok = reference(&k.s, p.as_ref()).is_ok();
    sym::check(p.is_none() || ok, "a text that breaks the rules is accepted");
    sym::check(p.is_some() || !ok, "a text that follows the rules is rejected");
    sym::check(p.is_some() == (errors == 0), "the number of errors does not fit the result");
    sym::reach(if ok { 0 } else { 1 });
}

fn front_edit() {
    agree(Edited::new(0, BASE.len(), 1));
}

/// As in `Byte`, but ASCII.
fn front_byte() {
    agree(Byte::new(true));
}

fn one_of(c: &[&'static str]) -> &'static str {
    c[sym::pick(c.len())]
}

fn cat(parts: &[&str]) -> Vec<u8> {
    let mut v = vec![];
    for p in parts {
        v.extend_from_slice(p.as_bytes());
    }
    v
}

fn agree_on(v: &[u8]) {
    sym::trace_bytes(v);
    agree(v);
}

/// Where a definition is visible: any control flow among `n` blocks.
fn dom(n: usize) {
    let names = ["%e", "%b", "%c", "%d"];
    let def = sym::pick(n);
    let used = sym::pick(n);
    let mut v = cat(&["fun @f(%a: i32): i32 {\n"]);
    for b in 0..n {
        v.extend_from_slice(&cat(&[names[b], ":\n"]));
        let here = def == b && used == b;
        let flip = here && sym::pick(2) == 1;
        for i in 0..2 {
            if (i == 0) != flip && def == b {
                v.extend_from_slice(b"%x = alloc i32\n");
            }
            if (i == 1) != flip && used == b {
                v.extend_from_slice(b"store 1, %x\n");
            }
        }
        // every pair of targets, or one, or none
        let k = sym::pick(n + (n - 1) * (n - 1));
        if k == 0 {
            v.extend_from_slice(b"ret %a\n");
        } else if k < n {
            v.extend_from_slice(&cat(&["jump ", names[k], "\n"]));
        } else {
            let k = k - n;
            v.extend_from_slice(&cat(&["br %a, ", names[1 + k / (n - 1)], ", ", names[1 + k % (n - 1)], "\n"]));
        }
    }
    v.extend_from_slice(b"}\n");
    agree_on(&v);
}
pub fn front_dom() {
    dom(3)
}
fn front_dom4() {
    dom(4)
}

/// Where paths part and meet again, among four blocks.
fn front_meet() {
    let names = ["%e", "%b", "%c", "%d"];
    let def = sym::pick(4);
    let used = sym::pick(4);
    let mut v = cat(&["fun @f(%a: i32): i32 {\n"]);
    for b in 0..4 {
        v.extend_from_slice(&cat(&[names[b], ":\n"]));
        if def == b {
            v.extend_from_slice(b"%x = alloc i32\n");
        }
        if used == b {
            v.extend_from_slice(b"store 1, %x\n");
        }
        let next = if b == 0 {
            one_of(&["br %a, %b, %c", "br %a, %c, %b"])
        } else {
            one_of(&["ret %a", "jump %b", "jump %c", "jump %d", "br %a, %c, %d", "br %a, %d, %b"])
        };
        v.extend_from_slice(&cat(&[next, "\n"]));
    }
    v.extend_from_slice(b"}\n");
    agree_on(&v);
}

/// The same for block parameters, the entry as a target and missing blocks.
pub fn front_flow() {
    let names = ["%e", "%b", "%c", "%z"];
    let mut v = cat(&["fun @f(%a: i32) {\n%e:\n"]);
    let vals = ["1", "%a", "%x", "%y"];
    for b in 0..3 {
        if b > 0 {
            v.extend_from_slice(&cat(&[names[b], if b == 1 { "(%x: i32)" } else { "(%y: i32)" }, ":\n"]));
        }
        let k = sym::pick(4);
        let t = one_of(&names);
        if k == 0 {
            v.extend_from_slice(b"ret\n");
        } else if k == 1 {
            v.extend_from_slice(&cat(&["jump ", t, "(", vals[if b == 0 { 1 } else { sym::pick(4) }], ")\n"]));
        } else if k == 2 {
            v.extend_from_slice(&cat(&["jump ", t, "\n"]));
        } else {
            v.extend_from_slice(&cat(&["br %a, %b(0), ", t, "(", vals[if b == 2 { 3 } else { 0 }], ")\n"]));
        }
    }
    v.extend_from_slice(b"}\n");
    agree_on(&v);
}

const TYPES: [&str; 7] = ["i32", "*i32", "[i32, 2]", "*[i32, 2]", "**i32", "[[i32, 1], 2]", "(i32): i32"];

/// One statement over operands of many types.
fn stmts(full: bool) {
    let g = TYPES[sym::pick(if full { 7 } else { 4 })];
    let p = TYPES[sym::pick(if full { 7 } else { 5 })];
    let x = ["@g", "%p", "%l", "%z", "@d"];
    let vals = ["@g", "%p", "%l", "1", "undef", "zeroinit", "{1, 2}", "{undef}", "{{3}, zeroinit}"];
    let init = if g == "[i32, 2]" { "{1, -2}" } else { "undef" };
    let k = sym::pick(10);
    let mut s = vec![];
    let mut end = "ret 0\n";
    match k {
        0 => s = cat(&["%x = load ", one_of(&x)]),
        1 => s = cat(&["store ", one_of(&vals), ", ", one_of(&x)]),
        2 => s = cat(&["%x = getptr ", one_of(&x), ", ", one_of(&vals)]),
        3 => s = cat(&["%x = getelemptr ", one_of(&x), ", ", one_of(&vals)]),
        4 => s = cat(&["%x = mod ", one_of(&vals), ", ", one_of(&vals)]),
        5 => s = cat(&[one_of(&["%x", "%0", "@x"]), " = call ", one_of(&["@d", "@f", "@g", "@u", "@n"]), "(", one_of(&vals), ")"]),
        6 => s = cat(&["call ", one_of(&["@d", "@u", "@f"]), "(", one_of(&vals), ")"]),
        7 => {
            s = cat(&["br ", one_of(&vals), ", %o, %o"]);
            end = "%o:\nret 0\n"
        }
        8 => {
            s = cat(&["jump %o(", one_of(&vals), ")"]);
            end = if sym::pick(2) == 0 { "%o(%i: i32):\nret %i\n" } else { "%o(%i: *i32):\nret 0\n" };
        }
        _ => {
            s = cat(&["ret ", one_of(&vals)]);
            end = "";
        }
    }
    let ret = if k == 9 { TYPES[sym::pick(4)] } else { "i32" };
    let mut v = cat(&["global @g = alloc ", g, ", ", init, "\ndecl @d(", p, "): i32\ndecl @u(i32)\nfun @f(%p: ", p]);
    v.extend_from_slice(&cat(&["): ", ret, " {\n%e:\n%l = alloc i32\n"]));
    v.append(&mut s);
    v.extend_from_slice(&cat(&["\n", end, "}\n"]));
    agree_on(&v);
}
pub fn front_stmts() {
    stmts(false)
}
fn front_stmts7() {
    stmts(true)
}

/// Initial values of global variables and of memory.
pub fn front_init() {
    let t = one_of(&["i32", "*i32", "[i32, 1]", "[i32, 2]", "[[i32, 2], 1]", "[[i32, 1], 2]", "[*i32, 1]", "[(), 1]"]);
    let leaf = ["0", "undef", "zeroinit", "{1}", "{2, undef}", "{{3}}", "@h", "{{1, 2}}", "{}"];
    let mut s = vec![];
    match sym::pick(3) {
        0 => s.extend_from_slice(one_of(&leaf).as_bytes()),
        1 => s.extend_from_slice(&cat(&["{", one_of(&leaf), "}"])),
        _ => s.extend_from_slice(&cat(&["{", one_of(&leaf), ", ", one_of(&leaf), "}"])),
    }
    let mut v = vec![];
    if sym::pick(2) == 0 {
        v.extend_from_slice(&cat(&["global @g = alloc ", t, ", "]));
        v.append(&mut s);
        v.extend_from_slice(b"\n");
    } else {
        v.extend_from_slice(&cat(&["fun @f() {\n%e:\n%p = alloc ", t, "\nstore "]));
        v.append(&mut s);
        v.extend_from_slice(b", %p\nret\n}\n");
    }
    agree_on(&v);
}

/// Lists of arguments against lists of parameters.
pub fn front_args() {
    let t = ["", "i32", "i32, i32", "*i32", "i32, *i32", "i32, i32, i32"];
    let ps = ["", "%x: i32", "%x: i32, %y: i32", "%x: *i32", "%x: i32, %y: *i32", "%x: i32, %y: i32, %w: i32"];
    let a = ["", "%a", "1, %a", "%q", "2, %q", "%a, %q", "1, 2, 3", "1, 2, 3, 4", "undef, undef"];
    let mut v = vec![];
    match sym::pick(3) {
        0 => v = cat(&["decl @d(", one_of(&t), ")\nfun @f(%a: i32, %q: *i32) {\n%e:\ncall @d(", one_of(&a), ")\nret\n}\n"]),
        1 => {
            v = cat(&["fun @f(%a: i32, %q: *i32) {\n%e:\njump %o(", one_of(&a), ")\n%o(", one_of(&ps), "):\nret\n}\n"])
        }
        _ => {
            let k = sym::pick(2);
            let o = ["%o", "%o2"][sym::pick(2)];
            let (l, r) = (one_of(&a), one_of(&["", "1", "%q", "1, 2"]));
            let (l, r) = if k == 0 { (l, r) } else { (r, l) };
            v = cat(&["fun @f(%a: i32, %q: *i32) {\n%e:\nbr %a, %o(", l, "), ", o, "(", r, ")\n%o("]);
            v.extend_from_slice(&cat(&[one_of(&ps), "):\nret\n%o2(%i: i32):\nret\n}\n"]));
        }
    }
    agree_on(&v);
}

/// Names in `n` of twelve places.
fn names(n: usize) {
    let mut at: Vec<&str> = vec!["@g", "@h", "@d", "@f", "%a", "%b", "%e", "%t", "%x", "%s", "%u", "@k"];
    let c = ["@g", "@f", "%a", "%e", "%s", "%0"];
    let mut from = 0;
    for i in 0..n {
        let k = from + sym::pick(at.len() - from - (n - 1 - i));
        at[k] = one_of(&c);
        from = k + 1;
    }
    let v = cat(&[
        "global ", at[0], " = alloc i32, 1\nglobal ", at[1], " = alloc i32, 2\ndecl ", at[2], "(i32)\nfun ", at[3], "(",
        at[4], ": i32, ", at[5], ": i32): i32 {\n", at[6], ":\n", at[9], " = alloc i32\n", at[10],
        " = load @g\nstore %a, @g\ncall @d(%b)\njump ", at[7], "(%a)\n", at[7], "(", at[8],
        ": i32):\nret %x\n}\nglobal ", at[11], " = alloc i32, 3\n",
    ]);
    agree_on(&v);
}
pub fn front_names() {
    names(2)
}
fn front_names3() {
    names(3)
}

/// Two functions with the same names in them: each has its own. One name (or
/// two) of either is another one.
fn twins(n: usize) {
    let same = ["%a", "%e", "%t", "%x", "%s", "%l"];
    // what is defined and what is used, in each function
    let at = [0, 1, 2, 3, 4, 5, 0, 2, 3, 4, 5, 0];
    let c = ["%a", "%e", "%t", "%x", "%s", "%l", "%z", "@g", "@p", "@q"];
    let mut other = [0; 2];
    let mut what = [""; 2];
    let mut from = 0;
    for i in 0..n {
        other[i] = from + sym::pick(24 - from - (n - 1 - i));
        what[i] = one_of(&c);
        from = other[i] + 1;
    }
    let name = |f: usize, k: usize| {
        for i in 0..n {
            if other[i] == f * 12 + k {
                return what[i];
            }
        }
        same[at[k]]
    };
    // the first function may have other names, which are not there in the second
    let own = sym::pick(2) == 1;
    let mut v = cat(&["global @g = alloc i32, 1\n"]);
    for f in 0..2 {
        let m: Vec<Vec<u8>> = (0..12)
            .map(|k| {
                let s = name(f, k);
                let mut s = s.as_bytes().to_vec();
                if own && f == 0 && s[0] == b'%' {
                    s.push(b'1');
                }
                s
            })
            .collect();
        let mut put = |t: &str| {
            // letters stand for the names
            for c in t.bytes() {
                if c >= b'A' && c <= b'L' {
                    v.extend_from_slice(&m[(c - b'A') as usize]);
                } else {
                    v.push(c);
                }
            }
        };
        put(if f == 0 { "fun @p(" } else { "fun @q(" });
        put("A: i32): i32 {\nB:\nE = alloc i32\nF = load J\nstore G, @g\njump H(K)\nC(D: i32):\n");
        put("store I, J\nstore L, E\nret D\n}\n");
    }
    agree_on(&v);
}
pub fn front_two() {
    twins(1)
}
fn front_two2() {
    twins(2)
}

/// Two names with a byte each that can be anything.
pub fn front_twin() {
    let mut c = || {
        let c = sym::u8();
        sym::assume((c >= b'a' && c <= b'z') || (c >= b'0' && c <= b'9') || c == b'_' || (c >= b'A' && c <= b'Z'));
        c
    };
    let (x, y) = (c(), c());
    let k = sym::pick(5);
    let mut v = vec![];
    let mut n = |v: &mut Vec<u8>, s: &str| {
        for b in s.bytes() {
            v.push(if b == b'1' { x } else if b == b'2' { y } else { b });
        }
    };
    match k {
        0 => n(&mut v, "global @q1 = alloc i0, undef\nglobal @q2 = alloc i0, zeroinit\n"),
        1 => n(&mut v, "fun @q(%a1: *i0, %a2: *i0) {\n%e:\nret\n}\n"),
        2 => n(&mut v, "fun @q(%a1: i0) {\n%e:\n%l = add %a2, 0\nret\n}\n"),
        3 => n(&mut v, "fun @q() {\n%e:\njump %a2\n%a1:\nret\n}\n"),
        _ => n(&mut v, "decl @q1()\nfun @q() {\n%e:\ncall @q2()\nret\n}\n"),
    }
    for i in 0..v.len() - 1 {
        if v[i] == b'i' && v[i + 1] == b'0' {
            v.splice(i + 1..i + 2, *b"32");
        }
    }
    agree(&v[..]);
}

/// Integers with symbolic digits wherever they can stand.
pub fn front_ints() {
    let mut d = || {
        let c = sym::u8();
        sym::assume(c >= b'0' && c <= b'9');
        c
    };
    let mut num = cat(&[one_of(&["", "-", "25", "6553", "214748364", "-214748364", "429496729", "922337203685477580"])]);
    num.push(d());
    if sym::pick(2) == 1 {
        num.push(d());
    }
    let (l, r) = match sym::pick(6) {
        4 => ("global @g = alloc [i32, ", "], {1, 2}\n"),
        5 => ("fun @f() {\n%e:\n%a = alloc [i32, ", "]\nstore {1, 2, 3}, %a\nret\n}\n"),
        0 => ("global @g = alloc i32, ", "\n"),
        1 => ("decl @f(*[i32, ", "])\n"),
        2 => ("fun @f(): i32 {\n%e:\nret ", "\n}\n"),
        _ => ("global @g = alloc [i32, 2], {0, ", "}\n"),
    };
    let mut v = cat(&[l]);
    v.extend_from_slice(&num);
    v.extend_from_slice(r.as_bytes());
    agree(&v[..]);
}

/// What stands between two tokens.
pub fn front_gaps() {
    let gap = ["", "\n", "\t", "\r\n", "/*@*/", "// ret\n", "//\r", "/***/", "/* ", " // }"];
    let mut at = sym::pick(BASE.len());
    let g = one_of(&gap);
    let mut v = vec![];
    for t in BASE {
        v.extend_from_slice(t.as_bytes());
        if at == 0 {
            v.extend_from_slice(g.as_bytes());
        } else {
            v.push(b' ');
        }
        at = at.wrapping_sub(1);
    }
    agree(&v[..]);
}

/// Definitions in any order.
fn items(n: usize) {
    let parts = [
        "global @a = alloc i32, 1\n",
        "decl @a()\n",
        "decl @b(i32): i32\n",
        "fun @a() {\n%e:\nret\n}\n",
        "fun @b(%x: i32): i32 {\n%e:\n%0 = call @b(%x)\nret %0\n}\n",
        "fun @c() {\n%e:\ncall @a()\n%0 = load @d\nret\n}\n",
        "global @d = alloc i32, 2\n",
        "fun @d(%0: i32): i32 {\n%e:\n%1 = call @b(%0)\nret %1\n%f:\nret\n}\n",
    ];
    let mut v = vec![];
    for _ in 0..n {
        v.extend_from_slice(one_of(&parts).as_bytes());
    }
    agree_on(&v);
}
pub fn front_items() {
    items(3)
}
fn front_items4() {
    items(4)
}

/// Any tokens in the place of a statement, a type or an initial value.
fn toks(n: usize) {
    let w = [
        "%a", "@g", "=", "add", "call", "load", "store", "(", ")", ",", "{", "}", "1", "undef", "i32", "*", "ret", "\n",
        "jump", "%e", ":", "alloc",
    ];
    let (l, r) = match sym::pick(3) {
        0 => ("global @g = alloc i32, 0\nfun @f(%a: i32) {\n%e:\n", "ret\n}\n"),
        1 => ("decl @f(", ")\n"),
        _ => ("global @g = alloc [i32, 1], ", "\n"),
    };
    let mut v = cat(&[l]);
    for _ in 0..n {
        v.extend_from_slice(one_of(&w).as_bytes());
        v.push(b' ');
    }
    v.extend_from_slice(r.as_bytes());
    agree_on(&v);
}
pub fn front_toks() {
    toks(sym::pick(4))
}
fn front_toks4() {
    toks(4)
}

/// Long texts with at most one mistake, far from the start or the end.
pub fn front_big() {
    let n = [8usize, 9, 17, 33, 66, 130][sym::pick(6)];
    let kind = sym::pick(14);
    let at = [0, 1, 2, n / 2, n - 2, n - 1][sym::pick(6)];
    // none, one of another sort, one fewer, one more
    let flaw = sym::pick(4);
    let list = |f: &dyn Fn(usize) -> String, len: usize| (0..len).map(|i| f(i)).collect::<Vec<_>>().join(", ");
    let len = match flaw {
        2 => n - 1,
        3 => n + 1,
        _ => n,
    };
    let ty = |i: usize| if i % 3 == 2 { "*i32" } else { "i32" };
    let arg = |i: usize| {
        let p = (i % 3 == 2) != (flaw == 1 && i == at);
        if p { "%p".to_string() } else if i % 2 == 0 { "%a".to_string() } else { format!("{}", i) }
    };
    let head = "fun @f(%a: i32, %p: *i32): i32 {\n%e:\n";
    let t = match kind {
        0 => format!("decl @d({}): i32\n{}%0 = call @d({})\nret %0\n}}\n", list(&|i| ty(i).into(), n), head, list(&arg, len)),
        1 => format!(
            "{}jump %b({})\n%b({}):\nret %x{}\n}}\n",
            head, list(&arg, len), list(&|i| format!("%x{}: {}", i, ty(i)), n), if n % 3 == 0 { n - 2 } else { n - 1 }
        ),
        2 | 3 => {
            let long = format!("%b({})", list(&arg, len));
            let (x, y) = if kind == 2 { (long, "%c(%a)".to_string()) } else { ("%c(%a)".to_string(), long) };
            format!(
                "{}br %a, {}, {}\n%c(%y: i32):\nret %y\n%b({}):\nret %x0\n}}\n",
                head, x, y, list(&|i| format!("%x{}: {}", i, ty(i)), n)
            )
        }
        4 => {
            // blocks one after the other, and a way past some of them
            let mut s = head.to_string();
            let (def, from) = (at, [0, n / 2, n - 1][sym::pick(3)]);
            for i in 0..n {
                if i > 0 {
                    s += &format!("%b{}:\n", i);
                }
                if i == def {
                    s += "%x = alloc i32\n";
                }
                if i == n - 1 {
                    s += "store %a, %x\nret %a\n";
                } else if i == from && flaw > 0 {
                    let to = [n - 1, i + 1, (i + 2).min(n - 1)][flaw - 1];
                    s += &format!("br %a, %b{}, %b{}\n", i + 1, to);
                } else {
                    s += &format!("jump %b{}\n", i + 1);
                }
            }
            s + "}\n"
        }
        5 => {
            // a chain of instructions, one of them missing, twice there, or late
            let mut s = head.to_string();
            for i in 0..n {
                if flaw == 2 && i == at {
                    continue;
                }
                let prev = if i == 0 { "%a".to_string() } else { format!("%v{}", i - 1) };
                let other = if flaw == 3 && i == at { format!("%v{}", (i + 1).min(n - 1)) } else { "%a".into() };
                s += &format!("%v{} = add {}, {}\n", i, prev, other);
                if flaw == 1 && i == n - 1 {
                    s += &format!("%v{} = sub %a, %a\n", at);
                }
            }
            s + &format!("ret %v{}\n}}\n", n - 1)
        }
        6 => {
            let mut s = String::new();
            for i in 0..len {
                s += &format!("global @g{} = alloc i32, {}\n", if flaw == 1 && i == n - 1 { at } else { i }, i);
            }
            s + &format!("{}%0 = load @g{}\nret %0\n}}\n", head, n - 1)
        }
        7 => {
            let mut s = String::new();
            for i in 0..len {
                s += &format!("decl @d{}(){}\n", if flaw == 1 && i == n - 1 { at } else { i }, if i % 2 == 0 { ": i32" } else { "" });
            }
            let with = if (n - 1) % 2 == 0 { "%0 = " } else { "" };
            s + &format!("{}{}call @d{}()\nret %a\n}}\n", head, with, n - 1)
        }
        8 => format!(
            "global @g = alloc [{}, {}], {{{}}}\n",
            if at % 2 == 0 { "i32" } else { "[i32, 1]" },
            n,
            list(
                &|i| {
                    let row = (at % 2 == 1) != (flaw == 1 && i == at);
                    if row { format!("{{{}}}", i) } else { format!("{}", i) }
                },
                len
            )
        ),
        9 => {
            // nested as deep as the type, or not
            let lens = |i: usize| if flaw == 1 && i == at { 2 } else { 1 };
            let mut t = "i32".to_string();
            for _ in 0..n {
                t = format!("[{}, 1]", t);
            }
            let mut v = "7".to_string();
            for i in 0..len {
                v = if lens(i) == 2 { format!("{{{}, zeroinit}}", v) } else { format!("{{{}}}", v) };
            }
            format!("global @g = alloc {}, {}\n", t, v)
        }
        10 => {
            // two long names that differ in one character, or not at all
            let long = |other: bool| -> String {
                (0..n * 8).map(|i| if other && flaw > 0 && i == at * 8 + flaw { 'y' } else { 'x' }).collect()
            };
            let (x, y) = (long(false), long(true));
            format!("{}%{} = add %a, 1\n%{} = add %{}, 2\nret %{}\n}}\n", head, x, y, x, y)
        }
        11 => {
            let dup = |i: usize| if flaw == 1 && i == n - 1 { at } else { i };
            format!(
                "fun @f({}): i32 {{\n%e:\n%0 = add %q{}, 1\nret %0\n}}\n",
                list(&|i| format!("%q{}: i32", dup(i)), len),
                n - 1
            )
        }
        12 => {
            // loads through pointers to pointers
            let mut s = format!("global @g = alloc {}i32, zeroinit\nfun @f(): i32 {{\n%e:\n", "*".repeat(n));
            for i in 0..len + 1 {
                let p = if i == 0 { "@g".to_string() } else { format!("%{}", i - 1) };
                s += &format!("%{} = {} {}{}\n", i, if flaw == 1 && i == at { "getptr" } else { "load" }, p,
                    if flaw == 1 && i == at { ", 1" } else { "" });
            }
            s + &format!("ret %{}\n}}\n", len)
        }
        _ => {
            // elements of elements
            let mut t = "i32".to_string();
            for _ in 0..n {
                t = format!("[{}, 2]", t);
            }
            let mut s = format!("global @g = alloc {}, zeroinit\nfun @f(): i32 {{\n%e:\n", t);
            for i in 0..len {
                let p = if i == 0 { "@g".to_string() } else { format!("%{}", i - 1) };
                s += &format!("%{} = {} {}, 1\n", i, if flaw == 1 && i == at { "getptr" } else { "getelemptr" }, p);
            }
            s + &format!("%r = load %{}\nret %r\n}}\n", len - 1)
        }
    };
    agree_on(t.as_bytes());
}

crate::harnesses! {
    front_big
    front_edit front_byte front_dom front_dom4 front_meet front_flow front_stmts front_stmts7 front_init front_args front_names
    front_names3 front_two front_two2 front_twin front_ints front_gaps front_items front_items4 front_toks front_toks4
}
