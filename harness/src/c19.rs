//! Syntax trees are what the text says, and know where it says it.
//!
//! The reference reads the tokens twice: first it decides which definitions
//! and statements are in order, then it goes through the trees with them.
use crate::c02::{Byte, Edited, BASE};
use crate::c03::{want, Want};
use crate::c14;
use crate::sym;
use crate::util::OPS;
use crate::vfs;
use koopa::front::ast::{self, Ast, AstBox, AstKind};
use koopa::front::lexer::Lexer;
use koopa::front::parser::Parser;
use koopa::front::span::{FileType, Span};
use std::io::Read;

const I32: usize = 0;
const UNDEF: usize = 1;
const ZERO: usize = 2;
const GLOBAL: usize = 3;
const ALLOC: usize = 4;
const LOAD: usize = 5;
const STORE: usize = 6;
const GETPTR: usize = 7;
const GETELEMPTR: usize = 8;
const BR: usize = 9;
const JUMP: usize = 10;
const CALL: usize = 11;
const RET: usize = 12;
const FUN: usize = 13;
const DECL: usize = 14;

struct Tok {
    w: Want,
    from: (u32, u32),
    to: (u32, u32),
    at: (usize, usize),
}

/// Where something is that does not fit: the place that is reported.
struct No(usize);
type Res = Result<(), No>;

struct Ref<'a> {
    s: &'a [u8],
    t: Vec<Tok>,
    i: usize,
    /// Look for mistakes; otherwise, compare.
    look: bool,
    faults: Vec<usize>,
    /// Something stands where nothing begins with it: whatever follows, the
    /// language does not say how to read it.
    stray: bool,
}

/// The part of a tree of that kind.
macro_rules! part {
    ($a:expr, $k:ident) => {
        match $a.map(|a| &a.kind) {
            None => None,
            Some(AstKind::$k(x)) => Some(x),
            _ => {
                sym::check(false, "the tree is of another kind than the text");
                None
            }
        }
    };
}

fn tokens(s: &[u8]) -> Option<Vec<Tok>> {
    let mut v = vec![];
    let (mut at, mut l, mut c, mut last) = (0, 1, 0, (1, 0));
    let mut place = |n: usize| {
        // the place of the character before
        while at < n {
            if s[at] == b'\n' {
                l += 1;
                c = 0;
            } else {
                c += 1;
            }
            at += 1;
        }
        (l, c)
    };
    let mut i = 0;
    loop {
        let (w, from, to) = want(s, i);
        match w {
            Want::Bad => return None,
            Want::End => {
                last = place(from);
                v.push(Tok { w, from: last, to: last, at: (from, to) });
                return Some(v);
            }
            _ => (),
        }
        let f = place(from + 1);
        last = place(to);
        v.push(Tok { w, from: f, to: last, at: (from, to) });
        i = to;
    }
}

impl<'a> Ref<'a> {
    fn is(&self, c: u8) -> bool {
        matches!(self.t[self.i].w, Want::Other(d) if d == c)
    }
    fn key(&self) -> usize {
        match self.t[self.i].w {
            Want::Keyword(k) => k,
            _ => 99,
        }
    }
    fn end(&self) -> bool {
        matches!(self.t[self.i].w, Want::End)
    }
    fn eat(&mut self, c: u8) -> Res {
        if !self.is(c) {
            return Err(No(self.i));
        }
        self.i += 1;
        Ok(())
    }
    fn name(&mut self, n: Option<&String>) -> Res {
        match self.t[self.i].w {
            Want::Symbol(a, b) => {
                if let Some(n) = n {
                    sym::check(n.as_bytes() == &self.s[a..b], "the tree has another name than the text");
                }
                self.i += 1;
                Ok(())
            }
            _ => Err(No(self.i)),
        }
    }
    fn from(&self, a: Option<&Ast>, i: usize) {
        if let Some(a) = a {
            let f = self.t[i].from;
            let have = format!("{:?}", a.span);
            sym::check(have.starts_with(&format!("{}:{}-", f.0, f.1)), "a tree starts somewhere else than its text");
        }
    }
    /// The tree is about the tokens from `i` to here.
    fn span(&self, a: Option<&Ast>, i: usize) -> Res {
        if let Some(a) = a {
            let (f, t) = (self.t[i].from, self.t[self.i - 1].to);
            let have = format!("{:?}", a.span);
            sym::check(have == format!("{}:{}-{}:{}", f.0, f.1, t.0, t.1), "a tree is about another part of the text");
        }
        Ok(())
    }
    fn list<T>(&mut self, a: Option<&'a [T]>, f: fn(&mut Self, Option<&'a T>) -> Res) -> Res {
        let mut n = 0;
        let mut one = |r: &mut Self| {
            let x = a.and_then(|a| a.get(n));
            n += 1;
            f(r, x)
        };
        self.eat(b'(')?;
        if !self.is(b')') {
            one(self)?;
            while self.is(b',') {
                self.i += 1;
                one(self)?;
            }
        }
        if let Some(a) = a {
            sym::check(a.len() == n, "a list is of another length");
        }
        self.eat(b')')
    }
    fn opt_list<T>(&mut self, a: Option<&'a [T]>, f: fn(&mut Self, Option<&'a T>) -> Res) -> Res {
        if self.is(b'(') {
            return self.list(a, f);
        }
        if let Some(a) = a {
            sym::check(a.is_empty(), "a list is of another length");
        }
        Ok(())
    }
    fn opt_ty(&mut self, a: Option<&'a Option<AstBox>>) -> Res {
        let there = self.is(b':');
        if let Some(a) = a {
            sym::check(a.is_some() == there, "a type that is returned is there, or not");
        }
        if !there {
            return Ok(());
        }
        self.i += 1;
        self.ty(a.and_then(|a| a.as_ref()))
    }
    fn ty(&mut self, a: Option<&'a AstBox>) -> Res {
        let a = a.map(|a| &**a);
        let s = self.i;
        if self.key() == I32 {
            self.i += 1;
            part!(a, IntType);
        } else if self.is(b'*') {
            self.i += 1;
            self.ty(part!(a, PointerType).map(|p| &p.base))?;
        } else if self.is(b'[') {
            self.i += 1;
            let p = part!(a, ArrayType);
            self.ty(p.map(|p| &p.base))?;
            self.eat(b',')?;
            match self.t[self.i].w {
                Want::Int(n) if n > 0 => {
                    if let Some(p) = p {
                        sym::check(p.len == n as usize, "an array is of another length");
                    }
                }
                _ => return Err(No(self.i)),
            }
            self.i += 1;
            self.eat(b']')?;
        } else if self.is(b'(') {
            let p = part!(a, FunType);
            self.list(p.map(|p| &p.params[..]), Self::ty)?;
            self.opt_ty(p.map(|p| &p.ret))?;
        } else {
            return Err(No(self.i));
        }
        self.span(a, s)
    }
    fn param(&mut self, a: Option<&'a (String, AstBox)>) -> Res {
        self.name(a.map(|a| &a.0))?;
        self.eat(b':')?;
        self.ty(a.map(|a| &a.1))
    }
    fn any(&mut self, a: Option<&'a AstBox>, init: bool, symbol: bool) -> Res {
        let a = a.map(|a| &**a);
        let s = self.i;
        match self.t[s].w {
            Want::Symbol(..) if symbol => {
                let n = part!(a, SymbolRef).map(|n| &n.symbol);
                self.name(n)?;
            }
            Want::Int(i) => {
                self.i += 1;
                if let Some(v) = part!(a, IntVal) {
                    sym::check(v.value == i as i32, "the tree has another number than the text");
                }
            }
            Want::Keyword(UNDEF) => {
                self.i += 1;
                part!(a, UndefVal);
            }
            Want::Keyword(ZERO) if init => {
                self.i += 1;
                part!(a, ZeroInit);
            }
            Want::Other(b'{') if init => {
                let e = part!(a, Aggregate).map(|a| &a.elems);
                let mut n = 0;
                loop {
                    self.i += 1;
                    self.any(e.and_then(|e| e.get(n)), true, false)?;
                    n += 1;
                    if !self.is(b',') {
                        break;
                    }
                }
                if let Some(e) = e {
                    sym::check(e.len() == n, "an aggregate is of another length");
                }
                self.eat(b'}')?;
            }
            _ => return Err(No(s)),
        }
        self.span(a, s)
    }
    fn value(&mut self, a: Option<&'a AstBox>) -> Res {
        self.any(a, false, true)
    }
    fn inst(&mut self, a: Option<&'a Ast>) -> Res {
        let s = self.i;
        if let Want::Op(o) = self.t[s].w {
            let b = part!(a, BinaryExpr);
            if let Some(b) = b {
                sym::check(b.op == OPS[o], "the tree has another operator than the text");
            }
            self.i += 1;
            self.value(b.map(|b| &b.lhs))?;
            self.eat(b',')?;
            self.value(b.map(|b| &b.rhs))?;
            return self.span(a, s);
        }
        let k = self.key();
        self.i += 1;
        match k {
            ALLOC => self.ty(part!(a, MemDecl).map(|m| &m.ty))?,
            LOAD => self.name(part!(a, Load).map(|l| &l.symbol))?,
            CALL => {
                let c = part!(a, FunCall);
                self.name(c.map(|c| &c.fun))?;
                self.list(c.map(|c| &c.args[..]), Self::value)?;
            }
            GETPTR => {
                let g = part!(a, GetPointer);
                self.name(g.map(|g| &g.symbol))?;
                self.eat(b',')?;
                self.value(g.map(|g| &g.value))?;
            }
            GETELEMPTR => {
                let g = part!(a, GetElementPointer);
                self.name(g.map(|g| &g.symbol))?;
                self.eat(b',')?;
                self.value(g.map(|g| &g.value))?;
            }
            _ => {
                self.i -= 1;
                return Err(No(s));
            }
        }
        self.span(a, s)
    }
    /// A statement begins here.
    fn starts(&self) -> bool {
        self.starts_at(self.i)
    }
    fn starts_at(&self, i: usize) -> bool {
        match self.t[i].w {
            Want::Symbol(..) => true,
            Want::Keyword(k) => k == STORE || k == CALL || k == BR || k == JUMP || k == RET,
            _ => false,
        }
    }
    fn stmt(&mut self, a: Option<&'a Ast>) -> Res {
        let s = self.i;
        if let Want::Symbol(..) = self.t[s].w {
            let d = part!(a, SymbolDef);
            self.name(d.map(|d| &d.name))?;
            self.eat(b'=')?;
            self.inst(d.map(|d| &*d.value))?;
            return self.span(a, s);
        }
        let k = self.key();
        if k == CALL {
            return self.inst(a);
        }
        self.i += 1;
        match k {
            STORE => {
                let st = part!(a, Store);
                self.any(st.map(|s| &s.value), true, true)?;
                self.eat(b',')?;
                self.name(st.map(|s| &s.symbol))?;
            }
            BR => {
                let b = part!(a, Branch);
                self.value(b.map(|b| &b.cond))?;
                self.eat(b',')?;
                self.name(b.map(|b| &b.tbb))?;
                self.opt_list(b.map(|b| &b.targs[..]), Self::value)?;
                self.eat(b',')?;
                self.name(b.map(|b| &b.fbb))?;
                self.opt_list(b.map(|b| &b.fargs[..]), Self::value)?;
            }
            JUMP => {
                let j = part!(a, Jump);
                self.name(j.map(|j| &j.target))?;
                self.opt_list(j.map(|j| &j.args[..]), Self::value)?;
            }
            RET => {
                // the value is on the same line; see C14 for what is left out
                let same = self.t[s].to.0 == self.t[self.i].from.0;
                let valued = match self.t[self.i].w {
                    Want::Int(_) | Want::Keyword(UNDEF) => true,
                    _ => false,
                };
                sym::assume(!(same && (self.is(b'}') || self.end())) && !(!same && valued));
                let r = part!(a, Return).map(|r| &r.value);
                if let Some(r) = r {
                    sym::check(r.is_some() == same, "a value that is returned is there, or not");
                }
                if same {
                    self.value(r.and_then(|r| r.as_ref()))?;
                }
            }
            _ => {
                self.i -= 1;
                return Err(No(s));
            }
        }
        self.span(a, s)
    }
    /// Something is wrong with what starts at `s`.
    fn fault(&mut self, n: No, s: usize, a: Option<&Ast>) {
        if self.look {
            self.faults.push(n.0);
        }
        part!(a, Error);
        self.from(a, s);
        self.i = n.0;
    }
    fn block(&mut self, a: Option<&'a AstBox>) -> Res {
        let a = a.map(|a| &**a);
        let b = part!(a, Block);
        let s = self.i;
        self.name(b.map(|b| &b.name))?;
        self.opt_list(b.map(|b| &b.params[..]), Self::param)?;
        self.eat(b':')?;
        let mut n = 0;
        let mut whole = true;
        loop {
            let t = self.i;
            let k = self.key();
            let mut last = k == BR || k == JUMP || k == RET;
            let x = b.and_then(|b| b.stmts.get(n)).map(|s| &**s);
            n += 1;
            // first without the tree: it can be an error
            let look = self.look;
            whole = true;
            let r = self.stmt(None);
            match r {
                Ok(()) => {
                    if x.is_some() && !look {
                        self.i = t;
                        self.stmt(x)?;
                    }
                }
                Err(e) => {
                    if !self.starts_at(t) {
                        self.stray = true;
                        return Err(e);
                    }
                    whole = false;
                    self.fault(e, t, x);
                    while !self.starts() {
                        if self.is(b'}') || self.end() {
                            last = true;
                            break;
                        }
                        self.i += 1;
                    }
                }
            }
            if last {
                break;
            }
        }
        if let Some(b) = b {
            sym::check(b.stmts.len() == n, "a block has more or fewer statements than the text");
        }
        if whole {
            return self.span(a, s);
        }
        self.from(a, s);
        Ok(())
    }
    fn item(&mut self, a: Option<&'a Ast>) -> Res {
        let s = self.i;
        let k = self.key();
        if k != GLOBAL && k != FUN && k != DECL {
            return Err(No(s));
        }
        self.i += 1;
        if k == GLOBAL {
            let g = part!(a, GlobalDef);
            self.name(g.map(|g| &g.name))?;
            self.eat(b'=')?;
            let v = g.map(|g| &*g.value);
            let m = self.i;
            if self.key() != ALLOC {
                return Err(No(m));
            }
            self.i += 1;
            let d = part!(v, GlobalDecl);
            self.ty(d.map(|d| &d.ty))?;
            self.eat(b',')?;
            self.any(d.map(|d| &d.init), true, false)?;
            self.span(v, m)?;
        } else if k == DECL {
            let d = part!(a, FunDecl);
            self.name(d.map(|d| &d.name))?;
            self.list(d.map(|d| &d.params[..]), Self::ty)?;
            self.opt_ty(d.map(|d| &d.ret))?;
        } else {
            let d = part!(a, FunDef);
            self.name(d.map(|d| &d.name))?;
            self.list(d.map(|d| &d.params[..]), Self::param)?;
            self.opt_ty(d.map(|d| &d.ret))?;
            self.eat(b'{')?;
            let mut n = 0;
            while !self.is(b'}') {
                self.block(d.and_then(|d| d.bbs.get(n)))?;
                n += 1;
            }
            if let Some(d) = d {
                sym::check(d.bbs.len() == n, "a function has more or fewer blocks than the text");
            }
            if n == 0 {
                return Err(No(s));
            }
            self.i += 1;
        }
        self.span(a, s)
    }
}

struct Tree(AstBox);

/// The parser and the reference agree about a text.
fn trees(s: &[u8]) {
    let toks = match tokens(s) {
        Some(t) => t,
        None => {
            sym::assume(false);
            return;
        }
    };
    Span::reset(FileType::Buffer);
    vfs::capture();
    let mut all: Vec<Tree> = vec![];
    let mut p = match Parser::new(Lexer::new(s)) {
        Ok(p) => p,
        Err(_) => {
            sym::check(false, "the parser refuses tokens that are in order");
            return;
        }
    };
    // there are no more trees than tokens, and the end stays
    let mut ends = 0;
    let mut gave_up = false;
    while ends < 2 {
        sym::check(all.len() <= toks.len(), "the parser does not get to the end");
        match p.parse_next() {
            Ok(a) => {
                if let AstKind::End(_) = a.kind {
                    ends += 1;
                } else {
                    sym::check(ends == 0, "something comes after the end");
                    all.push(Tree(a));
                }
            }
            Err(e) => {
                sym::check(!e.is_fatal(), "a mistake is fatal");
                gave_up = true;
                break;
            }
        }
    }
    let errors = Span::error_num();
    let out = vfs::captured();
    let mut r = Ref { s, t: toks, i: 0, look: true, faults: vec![], stray: false };
    let mut n = 0;
    while !r.end() {
        let from = r.i;
        let k = r.key();
        if k != GLOBAL && k != FUN && k != DECL {
            r.stray = true;
            r.faults.push(from);
            break;
        }
        let a = all.get(n).map(|t| &*t.0);
        n += 1;
        r.look = true;
        match r.item(None) {
            Ok(()) => {
                sym::check(a.is_some(), "a definition has no tree");
                let to = r.i;
                r.i = from;
                r.look = false;
                let _ = r.item(a);
                sym::check(r.i == to, "the reference does not agree with itself");
            }
            Err(e) => {
                if r.stray {
                    r.faults.push(e.0);
                    break;
                }
                sym::check(a.is_some(), "a mistake has no tree");
                // an empty function is wrong as a whole
                let fault = e.0;
                let empty = fault == from && r.key_at(from) == FUN;
                let at = r.i;
                r.fault(e, from, a);
                if empty {
                    r.i = at + 1;
                }
                while !r.end() {
                    let k = r.key();
                    if k == GLOBAL || k == FUN || k == DECL {
                        break;
                    }
                    r.i += 1;
                }
            }
        }
    }
    if !r.stray {
        sym::check(!gave_up, "the parser gives up over a mistake");
        sym::check(all.len() == n, "there are more trees than definitions");
        sym::check(errors == r.faults.len(), "there are more or fewer reports than mistakes");
    }
    // every report is about the part that does not fit
    let at = out.split(|c| *c == b'\n').filter(|l| l.starts_with(b"  at "));
    let mut k = 0;
    for l in at {
        if k < r.faults.len() {
            let f = r.t[r.faults[k]].from;
            let w = format!(" {}:{}:{}", FileType::Buffer, f.0, f.1);
            sym::check(l.ends_with(w.as_bytes()), "a report is about another place than the mistake");
        }
        k += 1;
    }
    sym::check(k == errors, "another number of places than of reports");
    sym::check(k >= r.faults.len(), "a mistake is not reported");
    if r.stray {
        sym::reach(2);
        return;
    }
    sym::reach(if errors == 0 { 0 } else { 1 });
}

impl Ref<'_> {
    fn key_at(&self, i: usize) -> usize {
        match self.t[i].w {
            Want::Keyword(k) => k,
            _ => 99,
        }
    }
}

fn all<R: Read>(mut r: R) -> Vec<u8> {
    let mut s = vec![];
    let _ = r.read_to_end(&mut s);
    sym::trace_bytes(&s);
    s
}

fn tree_edit() {
    trees(&all(Edited::new(0, BASE.len(), 1)));
}

/// Statements and definitions that are in order or not, one after the other.
fn parts(n: usize) {
    let good = ["%a = add 1, 2\n", "store {1, {undef}}, %p\n", "%c = call @f(1,\n%d)\n", "jump %t\n%t(%x: *[i32, 3]):\n", "br 1, %u, %t(2)\n%u:\n", "br 1, %u(3), %u\n%u:\n"];
    let bad = ["%a = add 1 2\n", "store zeroinit\n", "call @f(1\n", "jump 1\n%t:\n", "br %a, %b\n%b:\n", "%a = alloc [i32, 0]\n", "%c = \n", "jump %t()(\n%s:\n", "ret\n%v:\n", "ret %v\n%v:\n"];
    let items = ["global @g = alloc i32, {1, 2}\n", "decl @f(i32, (): *i32)\n", "global @g = 1\n", "decl f()\n", "fun @e() {}\n", "fun @e() {\n%e:\nret\n}", "fun @e() {\n%e\nret\n}\n", "global @h = alloc [i32, -1], {}\n"];
    let mut s = items[sym::pick(items.len())].as_bytes().to_vec();
    s.extend_from_slice(b"fun @m(%p: i32): [i32, 2] {\n%e(%q: i32):\n");
    for _ in 0..n {
        let k = sym::pick(16);
        s.extend_from_slice(if k < 6 { good[k] } else { bad[k - 6] }.as_bytes());
    }
    s.extend_from_slice(b"ret 1\n}\n");
    s.extend_from_slice(items[sym::pick(items.len())].as_bytes());
    sym::trace_bytes(&s);
    trees(&s);
}
fn tree_parts() {
    parts(2)
}
fn tree_parts3() {
    parts(3)
}

/// Tokens of any length, with anything between them.
fn tree_names() {
    let mut name = vec![if sym::pick(2) == 0 { b'%' } else { b'@' }];
    for _ in 0..1 + sym::pick(2) {
        let c = sym::u8();
        sym::assume(c < 128);
        name.push(c);
    }
    let mut s: Vec<u8> = vec![];
    for b in [&b"fun @m("[..], b"(: i32) {\n%e:\n", b" = add ", b", 10\njump ", b"\n", b":\nret ", b"\n}\n"] {
        for c in b {
            if *c == b'(' && b.len() > 8 {
                continue;
            }
            s.push(*c);
        }
        if b[0] != b'\n' || b.len() == 1 {
            s.extend_from_slice(&name);
        }
    }
    trees(&s);
}

static mut INSTEAD: bool = false;

/// The families of C14 make texts for this property.
pub fn instead() -> bool {
    unsafe { INSTEAD }
}
pub fn same<R: Read>(r: R) {
    trees(&all(r));
}

fn tree_byte() {
    trees(&all(Byte::new(true)));
}

/// The families of texts of C14.
fn tree_front() {
    unsafe { INSTEAD = true };
    match sym::pick(8) {
        0 => c14::front_big(),
        1 => c14::front_init(),
        2 => c14::front_args(),
        3 => c14::front_stmts(),
        4 => c14::front_gaps(),
        5 => c14::front_items(),
        6 => c14::front_toks(),
        _ => c14::front_flow(),
    }
}

crate::harnesses! {
    tree_edit tree_parts tree_parts3 tree_names tree_byte tree_front
}
