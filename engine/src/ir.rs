//! LLVM IR text: lazy linking of several modules, and parsing of the functions
//! that are reached into a compact form.

use crate::expr::{self, Id};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    F32,
    F64,
    F16,
    Void,
    Meta,
    Label,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Bad,
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::F16 => 2,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => align_up((*w as u64 + 7) / 8, self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::F16 => 2,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if !packed {
                    o = align_up(o, self.align());
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            _ => 0,
        }
    }
    /// scalar slots: (byte offset, width)
    pub fn slots(&self, base: u64, out: &mut Vec<(u64, u32)>) {
        match self {
            Ty::Int(w) => out.push((base, *w)),
            Ty::Ptr | Ty::F64 => out.push((base, 64)),
            Ty::F32 => out.push((base, 32)),
            Ty::F16 => out.push((base, 16)),
            Ty::Arr(n, t) => {
                for i in 0..*n {
                    t.slots(base + i * t.size(), out)
                }
            }
            Ty::Struct(f, _) => {
                for i in 0..f.len() {
                    f[i].slots(base + self.field_off(i), out)
                }
            }
            _ => {}
        }
    }
    pub fn nslots(&self) -> usize {
        match self {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 | Ty::F16 => 1,
            Ty::Arr(n, t) => *n as usize * t.nslots(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nslots()).sum(),
            _ => 0,
        }
    }
}

/// An operand: a register slot or a constant.
#[derive(Clone, Copy, Debug)]
pub enum Op {
    R(u32),
    C(u64),
    /// a constant wider than 64 bits
    W(Id),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Copy,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Memcpy,
    Memmove,
    Memset,
    AddO(bool),
    SubO(bool),
    MulO(bool),
    AddSat(bool),
    SubSat(bool),
    Min(bool),
    Max(bool),
    Abs,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    Cmp3(bool),
    Copy,
    Trap,
    FUn(&'static str),
    FToIntSat(bool),
}

#[derive(Debug)]
pub struct Switch {
    pub v: Op,
    pub w: u32,
    pub cases: Vec<(u64, u32)>,
    pub default: u32,
}

#[derive(Debug)]
pub struct CallI {
    pub dst: u32,
    pub nret: u32,
    pub target: Callee,
    pub args: Vec<Op>,
}

#[derive(Clone, Copy, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Op),
}

#[derive(Debug)]
pub struct IntrI {
    pub k: Intr,
    pub w: u32,
    pub w2: u32,
    pub dst: u32,
    pub args: Vec<Op>,
}

#[derive(Debug)]
pub enum Inst {
    Bin(BinOp, u32, u32, Op, Op),
    Icmp(Pred, u32, u32, Op, Op),
    Cast(CastK, u32, u32, u32, Op),
    Select { dst: u32, c: Op, ws: Box<[u32]>, a: Box<[Op]>, b: Box<[Op]> },
    Load1 { dst: u32, w: u32, p: Op },
    Load { dst: u32, slots: Box<[(u64, u32)]>, p: Op },
    Store1 { v: Op, w: u32, p: Op },
    Store { vals: Box<[(u64, u32, Op)]>, p: Op },
    Gep { dst: u32, base: Op, off: u64, terms: Box<[(Op, u32, u64)]> },
    Gep0 { dst: u32, base: Op, off: u64 },
    Alloca { dst: u32, size: u64 },
    Moves(Box<[(u32, Op)]>),
    Call(Box<CallI>),
    Intr(Box<IntrI>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Box<Switch>),
    Ret(Box<[Op]>),
    Unreachable,
    AtomicRmw { op: BinOp, xchg: bool, dst: u32, p: Op, v: Op, w: u32 },
    CmpXchg { dst: u32, p: Op, e: Op, n: Op, w: u32 },
    FBin(u8, u32, u32, Op, Op),
    FCmp(String, u32, u32, Op, Op),
    FCast(String, u32, u32, u32, Op),
    Unsupported(String),
}

#[derive(Default)]
pub struct Block {
    pub insts: Vec<Inst>,
    /// moves of the phis, per predecessor
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub name: String,
}

pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub nslots: u32,
    pub nret: u32,
    pub blocks: Vec<Block>,
    pub allocas: u32,
}

pub enum Sym {
    Func { module: usize, text: &'static str },
    Global { module: usize, text: &'static str },
    Alias { module: usize, text: &'static str },
}

pub struct Module {
    pub path: String,
    pub types: HashMap<String, &'static str>,
    pub local: HashMap<&'static str, Sym>,
}

pub enum FnBody {
    Unparsed { module: usize, text: &'static str },
    Parsed(&'static Func),
    Extern,
}

pub struct FnEntry {
    pub name: String,
    pub body: FnBody,
    /// index of a builtin, decided on first call
    pub builtin: i32,
}

pub struct GlobalEntry {
    pub name: String,
    pub module: usize,
    pub text: &'static str,
    pub data: Option<(Rc<Vec<u8>>, bool)>,
    pub external: bool,
    /// every thread has its own
    pub tls: bool,
    /// belongs to the harnesses
    pub harness: bool,
}

pub struct Link {
    pub modules: Vec<Module>,
    pub globals_by_name: HashMap<&'static str, Sym>,
    pub fns: Vec<FnEntry>,
    pub fn_ids: HashMap<(usize, String), u32>,
    pub gs: Vec<GlobalEntry>,
    pub g_ids: HashMap<(usize, String), u32>,
}

pub const FN_BASE: u64 = 0x7f00_0000_0000_0000;
pub const MODULE_ANY: usize = usize::MAX;

pub fn fn_addr(i: u32) -> u64 {
    FN_BASE | ((i as u64) << 4)
}
pub fn addr_fn(a: u64) -> Option<u32> {
    if a & 0xffff_0000_0000_0000 == FN_BASE && a & 15 == 0 {
        Some(((a & 0xffff_ffff_ffff) >> 4) as u32)
    } else {
        None
    }
}

fn name_at(s: &str) -> (&str, usize) {
    // s starts just after the sigil; returns the name (without quotes) and the consumed length
    if s.starts_with('"') {
        let e = s[1..].find('"').unwrap() + 1;
        (&s[1..e], e + 1)
    } else {
        let e = s
            .find(|c: char| !(c.is_ascii_alphanumeric() || matches!(c, '_' | '.' | '$' | '-')))
            .unwrap_or(s.len());
        (&s[..e], e)
    }
}

impl Link {
    pub fn new() -> Self {
        Link {
            modules: vec![],
            globals_by_name: HashMap::new(),
            fns: vec![],
            fn_ids: HashMap::new(),
            gs: vec![],
            g_ids: HashMap::new(),
        }
    }

    pub fn add_module(&mut self, path: &str) {
        let text: &'static str =
            Box::leak(std::fs::read_to_string(path).unwrap_or_else(|e| {
                eprintln!("ksym: cannot read {}: {}", path, e);
                std::process::exit(3)
            }).into_boxed_str());
        let module = self.modules.len();
        let mut m =
            Module { path: path.to_string(), types: HashMap::new(), local: HashMap::new() };
        let b = text.as_bytes();
        let mut pos = 0;
        while pos < b.len() {
            let eol = match memchr(b'\n', &b[pos..]) {
                Some(x) => pos + x,
                None => b.len(),
            };
            let line = &text[pos..eol];
            match b[pos] {
                b'@' => {
                    let (name, n) = name_at(&line[1..]);
                    let rest = &line[1 + n..];
                    let head = rest.trim_start_matches(" =").trim_start();
                    let local = head.starts_with("private") || head.starts_with("internal");
                    let body = head;
                    let is_alias = body
                        .split_whitespace()
                        .take(8)
                        .take_while(|w| *w != "global" && *w != "constant")
                        .any(|w| w == "alias");
                    let is_ext = head.starts_with("external") || head.starts_with("extern_weak");
                    let sym = if is_alias {
                        Sym::Alias { module, text: body }
                    } else {
                        Sym::Global { module, text: body }
                    };
                    if local {
                        m.local.insert(name, sym);
                    } else if is_ext {
                        self.globals_by_name.entry(name).or_insert(sym);
                    } else {
                        // a definition replaces an external declaration
                        let rep = match self.globals_by_name.get(name) {
                            None => true,
                            Some(Sym::Global { text, .. }) => {
                                text.starts_with("external") || text.starts_with("extern_weak")
                            }
                            _ => false,
                        };
                        if rep {
                            self.globals_by_name.insert(name, sym);
                        }
                    }
                    pos = eol + 1;
                }
                b'%' => {
                    let (name, n) = name_at(&line[1..]);
                    let rest = &line[1 + n..];
                    if let Some(t) = rest.strip_prefix(" = type ") {
                        m.types.insert(name.to_string(), t);
                    }
                    pos = eol + 1;
                }
                b'd' if line.starts_with("define ") => {
                    let at = line.find(" @").or_else(|| line.find("@")).unwrap();
                    let at = line[at..].find('@').unwrap() + at;
                    let (name, _) = name_at(&line[at + 1..]);
                    let head = &line[7..at];
                    let local = head.split_whitespace().any(|w| w == "internal" || w == "private");
                    let end = find_end(b, eol);
                    let body = &text[pos..end];
                    let sym = Sym::Func { module, text: body };
                    if local {
                        m.local.insert(name, sym);
                    } else {
                        self.globals_by_name.entry(name).or_insert(sym);
                    }
                    pos = end + 2;
                }
                _ => pos = eol + 1,
            }
        }
        self.modules.push(m);
    }

    /// Address of symbol `name` as seen from `module`.
    pub fn sym_addr(&mut self, module: usize, name: &str) -> u64 {
        let (key_mod, kind) = match self.modules.get(module).and_then(|m| m.local.get(name)) {
            Some(Sym::Func { module, text }) => (*module, (0, *module, *text)),
            Some(Sym::Global { module, text }) => (*module, (1, *module, *text)),
            Some(Sym::Alias { module, text }) => (*module, (2, *module, *text)),
            None => match self.globals_by_name.get(name) {
                Some(Sym::Func { module, text }) => (MODULE_ANY, (0, *module, *text)),
                Some(Sym::Global { module, text }) => (MODULE_ANY, (1, *module, *text)),
                Some(Sym::Alias { module, text }) => (MODULE_ANY, (2, *module, *text)),
                None => (MODULE_ANY, (3, 0, "")),
            },
        };
        let key = (key_mod, name.to_string());
        match kind {
            (0, m, text) => {
                if let Some(i) = self.fn_ids.get(&key) {
                    return fn_addr(*i);
                }
                let i = self.fns.len() as u32;
                self.fns.push(FnEntry {
                    name: name.to_string(),
                    body: FnBody::Unparsed { module: m, text },
                    builtin: -2,
                });
                self.fn_ids.insert(key, i);
                fn_addr(i)
            }
            (1, m, text) => {
                if let Some(i) = self.g_ids.get(&key) {
                    return (*i as u64 + 1) << 32;
                }
                let i = self.gs.len() as u32;
                assert!(i < 0x00ff_ffff);
                let external = text.starts_with("external") || text.starts_with("extern_weak");
                self.gs.push(GlobalEntry {
                    name: name.to_string(),
                    module: m,
                    text,
                    data: None,
                    external,
                    tls: text.split_whitespace().take_while(|w| *w != "global" && *w != "constant").any(|w| {
                        w.starts_with("thread_local")
                    }),
                    harness: self.modules.get(m).is_some_and(|m| m.path.contains("/kharness-")),
                });
                self.g_ids.insert(key, i);
                (i as u64 + 1) << 32
            }
            (2, m, text) => {
                // alias TYPE, ptr @target
                let at = text.rfind('@').unwrap();
                let (t, _) = name_at(&text[at + 1..]);
                let t = t.to_string();
                self.sym_addr(m, &t)
            }
            _ => {
                if let Some(i) = self.fn_ids.get(&key) {
                    return fn_addr(*i);
                }
                let i = self.fns.len() as u32;
                self.fns.push(FnEntry {
                    name: name.to_string(),
                    body: FnBody::Extern,
                    builtin: -2,
                });
                self.fn_ids.insert(key, i);
                fn_addr(i)
            }
        }
    }

    pub fn global_data(&mut self, i: u32) -> Result<(Rc<Vec<u8>>, bool), String> {
        if let Some((d, c)) = &self.gs[i as usize].data {
            return Ok((d.clone(), *c));
        }
        if self.gs[i as usize].external {
            return Err(format!("external global {} has no definition", self.gs[i as usize].name));
        }
        let (module, text) = (self.gs[i as usize].module, self.gs[i as usize].text);
        let mut p = Parser::new(self, module, text);
        // skip keywords up to `global` or `constant`
        let is_const;
        loop {
            let t = p.tok()?;
            if t == "global" {
                is_const = false;
                break;
            }
            if t == "constant" {
                is_const = true;
                break;
            }
            if t == "(" {
                p.skip_group()?;
            }
        }
        let ty = p.ty()?;
        let mut out = vec![0u8; ty.size() as usize];
        p.init(&ty, 0, &mut out)?;
        let d = Rc::new(out);
        self.gs[i as usize].data = Some((d.clone(), is_const));
        Ok((d, is_const))
    }

    pub fn func(&mut self, i: u32) -> Result<&'static Func, String> {
        match &self.fns[i as usize].body {
            FnBody::Parsed(f) => Ok(f),
            FnBody::Extern => Err(format!("call of undefined external `{}`", self.fns[i as usize].name)),
            FnBody::Unparsed { module, text } => {
                let (module, text) = (*module, *text);
                let name = self.fns[i as usize].name.clone();
                let f = parse_func(self, module, text, &name)
                    .map_err(|e| format!("parsing {}: {}", name, e))?;
                let f: &'static Func = Box::leak(Box::new(f));
                self.fns[i as usize].body = FnBody::Parsed(f);
                Ok(f)
            }
        }
    }
}

fn memchr(c: u8, b: &[u8]) -> Option<usize> {
    b.iter().position(|x| *x == c)
}

fn find_end(b: &[u8], mut p: usize) -> usize {
    // position of the newline before the closing "}" line
    loop {
        while p < b.len() && b[p] != b'\n' {
            p += 1;
        }
        if p + 1 >= b.len() {
            return b.len() - 2;
        }
        if b[p + 1] == b'}' {
            return p + 1;
        }
        p += 1;
    }
}

struct Parser<'a> {
    l: &'a mut Link,
    module: usize,
    s: &'static str,
    p: usize,
    // function context
    names: HashMap<String, (u32, u32)>,
    labels: HashMap<String, u32>,
    nslots: u32,
}

type R<T> = Result<T, String>;

const SIMPLE_ATTRS: &[&str] = &["to"];

impl<'a> Parser<'a> {
    fn new(l: &'a mut Link, module: usize, s: &'static str) -> Self {
        Parser { l, module, s, p: 0, names: HashMap::new(), labels: HashMap::new(), nslots: 0 }
    }

    fn ws(&mut self) {
        let b = self.s.as_bytes();
        loop {
            while self.p < b.len() && (b[self.p] == b' ' || b[self.p] == b'\n' || b[self.p] == b'\t') {
                self.p += 1;
            }
            if self.p < b.len() && b[self.p] == b';' {
                while self.p < b.len() && b[self.p] != b'\n' {
                    self.p += 1;
                }
                continue;
            }
            break;
        }
    }
    /// skip the rest of the current line
    fn eol(&mut self) {
        let b = self.s.as_bytes();
        while self.p < b.len() && b[self.p] != b'\n' {
            self.p += 1;
        }
    }
    fn tok_end(&self, p: usize) -> usize {
        let b = self.s.as_bytes();
        if p >= b.len() {
            return p;
        }
        let c = b[p];
        let is_id = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-');
        match c {
            b'%' | b'@' | b'!' | b'#' => {
                if p + 1 < b.len() && b[p + 1] == b'"' {
                    let mut q = p + 2;
                    while b[q] != b'"' {
                        q += 1;
                    }
                    q + 1
                } else {
                    let mut q = p + 1;
                    while q < b.len() && is_id(b[q]) {
                        q += 1;
                    }
                    q
                }
            }
            b'"' => {
                let mut q = p + 1;
                while b[q] != b'"' {
                    q += 1;
                }
                q + 1
            }
            b'c' if p + 1 < b.len() && b[p + 1] == b'"' => {
                let mut q = p + 2;
                while b[q] != b'"' {
                    q += 1;
                }
                q + 1
            }
            b'.' if b[p..].starts_with(b"...") => {
                let mut q = p;
                while q < b.len() && b[q] == b'.' {
                    q += 1;
                }
                q
            }
            c if is_id(c) || c == b'+' => {
                let mut q = p + 1;
                while q < b.len() && (is_id(b[q]) || b[q] == b'+') {
                    q += 1;
                }
                q
            }
            _ => p + 1,
        }
    }
    fn tok(&mut self) -> R<&'static str> {
        self.ws();
        let e = self.tok_end(self.p);
        if e == self.p {
            return Err("unexpected end".into());
        }
        let t = &self.s[self.p..e];
        self.p = e;
        Ok(t)
    }
    /// the next token; the position stays where it was (and so on its line)
    fn peek(&mut self) -> &'static str {
        let save = self.p;
        self.ws();
        let e = self.tok_end(self.p);
        let t = &self.s[self.p..e];
        self.p = save;
        t
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.peek() == t {
            let _ = self.tok();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) -> R<()> {
        let x = self.tok()?;
        if x == t {
            Ok(())
        } else {
            let e = (self.p + 60).min(self.s.len());
            Err(format!("expected `{}`, got `{}` before `{}`", t, x, &self.s[self.p..e]))
        }
    }
    /// after an opening bracket was consumed: skip to its match
    fn skip_group(&mut self) -> R<()> {
        let mut d = 1;
        while d > 0 {
            match self.tok()? {
                "(" | "[" | "{" => d += 1,
                ")" | "]" | "}" => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }

    fn is_type_start(t: &str) -> bool {
        match t {
            "ptr" | "void" | "float" | "double" | "half" | "[" | "{" | "<" | "label" | "metadata" | "..."
            | "bfloat" | "fp128" => true,
            _ => {
                (t.starts_with('i') && t.len() > 1 && t[1..].bytes().all(|c| c.is_ascii_digit()))
                    || t.starts_with('%')
            }
        }
    }

    fn ty(&mut self) -> R<Ty> {
        let t = self.tok()?;
        let r = match t {
            "ptr" => {
                if self.peek() == "addrspace" {
                    self.tok()?;
                    self.expect("(")?;
                    self.skip_group()?;
                }
                Ty::Ptr
            }
            "void" => Ty::Void,
            "float" => Ty::F32,
            "double" => Ty::F64,
            "half" => Ty::F16,
            "label" => Ty::Label,
            "metadata" => Ty::Meta,
            "bfloat" | "fp128" => Ty::Bad,
            "[" => {
                let n: u64 = self.tok()?.parse().map_err(|_| "array length".to_string())?;
                self.expect("x")?;
                let e = self.ty()?;
                self.expect("]")?;
                Ty::Arr(n, Rc::new(e))
            }
            "{" => {
                let mut f = vec![];
                if !self.eat("}") {
                    loop {
                        f.push(self.ty()?);
                        if self.eat("}") {
                            break;
                        }
                        self.expect(",")?;
                    }
                }
                Ty::Struct(Rc::new(f), false)
            }
            "<" => {
                if self.eat("{") {
                    let mut f = vec![];
                    if !self.eat("}") {
                        loop {
                            f.push(self.ty()?);
                            if self.eat("}") {
                                break;
                            }
                            self.expect(",")?;
                        }
                    }
                    self.expect(">")?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    while self.tok()? != ">" {}
                    Ty::Bad
                }
            }
            _ if t.starts_with('%') => {
                let n = t[1..].trim_matches('"').to_string();
                let d = match self.l.modules[self.module].types.get(&n) {
                    Some(d) => *d,
                    None => return Err(format!("unknown type {}", t)),
                };
                let m = self.module;
                let mut sub = Parser::new(self.l, m, d);
                sub.ty()?
            }
            _ if Self::is_type_start(t) => Ty::Int(t[1..].parse().unwrap()),
            _ => {
                let e = (self.p + 60).min(self.s.len());
                return Err(format!("type expected at `{}{}`", t, &self.s[self.p..e]));
            }
        };
        Ok(r)
    }

    fn skip_attrs(&mut self) -> R<()> {
        loop {
            let t = self.peek();
            if t.is_empty() || Self::is_type_start(t) {
                return Ok(());
            }
            let c = t.as_bytes()[0];
            if c == b'"' {
                self.tok()?;
                if self.eat("=") {
                    self.tok()?;
                }
                continue;
            }
            if !c.is_ascii_alphabetic() {
                return Ok(());
            }
            if SIMPLE_ATTRS.contains(&t)
                || matches!(
                    t,
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none"
                        | "getelementptr" | "inttoptr" | "ptrtoint" | "sub" | "add" | "trunc" | "asm"
                        | "splat" | "blockaddress" | "xor" | "mul" | "shl" | "bitcast" | "icmp"
                )
                || (t.starts_with("c\""))
            {
                return Ok(());
            }
            self.tok()?;
            if t == "align" && self.peek().as_bytes().first().map_or(false, |c| c.is_ascii_digit()) {
                self.tok()?;
            } else if self.peek() == "(" {
                self.tok()?;
                self.skip_group()?;
            }
        }
    }

    fn int_of(t: &str) -> Option<u128> {
        if let Some(x) = t.strip_prefix('-') {
            x.parse::<u128>().ok().map(|v| v.wrapping_neg())
        } else {
            t.parse::<u128>().ok()
        }
    }

    /// evaluates a constant expression operator (name already consumed) to 64 bits
    fn const_expr(&mut self, k: &str) -> R<u64> {
        match k {
            "getelementptr" => {
                while self.peek() != "(" {
                    self.tok()?;
                    // inrange(-8, 24)
                    if self.peek() == "(" {
                        let save = self.p;
                        self.tok()?;
                        let n = self.peek();
                        if n.starts_with('-') || n.as_bytes()[0].is_ascii_digit() {
                            self.skip_group()?;
                        } else {
                            self.p = save;
                            break;
                        }
                    }
                }
                self.expect("(")?;
                let t = self.ty()?;
                self.expect(",")?;
                let bt = self.ty()?;
                let mut a = self.const64(&bt)?;
                let mut cur = t.clone();
                let mut first = true;
                while self.eat(",") {
                    self.skip_attrs()?;
                    let it = self.ty()?;
                    let i = self.const64(&it)?;
                    let i = if let Ty::Int(w) = it {
                        expr::sext128(i as u128 & expr::mask(w), w) as i64
                    } else {
                        i as i64
                    };
                    if first {
                        a = a.wrapping_add((cur.size() as i64).wrapping_mul(i) as u64);
                        first = false;
                    } else {
                        match &cur {
                            Ty::Arr(_, e) => {
                                let e = (**e).clone();
                                a = a.wrapping_add((e.size() as i64).wrapping_mul(i) as u64);
                                cur = e;
                            }
                            Ty::Struct(f, _) => {
                                let e = f[i as usize].clone();
                                a = a.wrapping_add(cur.field_off(i as usize));
                                cur = e;
                            }
                            _ => return Err("bad constant gep".into()),
                        }
                    }
                }
                self.expect(")")?;
                Ok(a)
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" => {
                self.expect("(")?;
                let t = self.ty()?;
                let v = self.const64(&t)?;
                self.expect("to")?;
                let t2 = self.ty()?;
                self.expect(")")?;
                Ok(match t2 {
                    Ty::Int(w) if w < 64 => v & ((1 << w) - 1),
                    _ => v,
                })
            }
            "sub" | "add" | "xor" | "mul" | "shl" => {
                while self.peek() != "(" {
                    self.tok()?;
                }
                self.expect("(")?;
                let t = self.ty()?;
                let a = self.const64(&t)?;
                self.expect(",")?;
                let t = self.ty()?;
                let b = self.const64(&t)?;
                self.expect(")")?;
                Ok(match k {
                    "sub" => a.wrapping_sub(b),
                    "add" => a.wrapping_add(b),
                    "mul" => a.wrapping_mul(b),
                    "shl" => a << b,
                    _ => a ^ b,
                })
            }
            _ => Err(format!("constant expression {}", k)),
        }
    }

    fn const64(&mut self, ty: &Ty) -> R<u64> {
        let t = self.tok()?;
        if t.starts_with('@') {
            let n = t[1..].trim_matches('"');
            return Ok(self.l.sym_addr(self.module, n));
        }
        match t {
            "null" | "zeroinitializer" | "undef" | "poison" | "false" | "none" => Ok(0),
            "true" => Ok(1),
            _ => {
                if matches!(ty, Ty::F32 | Ty::F64 | Ty::F16) {
                    return float_const(t, ty);
                }
                if let Some(v) = Self::int_of(t) {
                    let w = match ty {
                        Ty::Int(w) => *w,
                        _ => 64,
                    };
                    return Ok((v & expr::mask(w.min(64))) as u64);
                }
                self.const_expr(t)
            }
        }
    }

    /// initializer of a global
    fn init(&mut self, ty: &Ty, off: usize, out: &mut [u8]) -> R<()> {
        let t = self.peek();
        match t {
            "zeroinitializer" | "undef" | "poison" | "null" => {
                self.tok()?;
                return Ok(());
            }
            _ => {}
        }
        match ty {
            Ty::Arr(_, e) => {
                if t.starts_with("c\"") {
                    self.tok()?;
                    let b = t[2..t.len() - 1].as_bytes();
                    let mut i = 0;
                    let mut o = off;
                    while i < b.len() {
                        if b[i] == b'\\' {
                            if b[i + 1] == b'\\' {
                                out[o] = b'\\';
                                i += 2;
                            } else {
                                out[o] =
                                    u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16)
                                        .unwrap();
                                i += 3;
                            }
                        } else {
                            out[o] = b[i];
                            i += 1;
                        }
                        o += 1;
                    }
                    return Ok(());
                }
                self.expect("[")?;
                let mut o = off;
                loop {
                    let et = self.ty()?;
                    self.init(&et, o, out)?;
                    o += e.size() as usize;
                    if self.eat("]") {
                        break;
                    }
                    self.expect(",")?;
                }
                Ok(())
            }
            Ty::Struct(f, packed) => {
                if *packed {
                    self.expect("<")?;
                }
                self.expect("{")?;
                for i in 0..f.len() {
                    if i > 0 {
                        self.expect(",")?;
                    }
                    let et = self.ty()?;
                    self.init(&et, off + ty.field_off(i) as usize, out)?;
                }
                self.expect("}")?;
                if *packed {
                    self.expect(">")?;
                }
                Ok(())
            }
            Ty::Int(w) if *w > 64 => {
                let t = self.tok()?;
                let v = Self::int_of(t).ok_or("wide int")?;
                let n = ty.size() as usize;
                out[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
                Ok(())
            }
            _ => {
                let v = self.const64(ty)?;
                let n = ty.size() as usize;
                out[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
                Ok(())
            }
        }
    }

    fn slot_of(&mut self, name: &str, n: u32) -> u32 {
        if let Some((s, m)) = self.names.get(name) {
            debug_assert_eq!(*m, n, "{}", name);
            return *s;
        }
        let s = self.nslots;
        self.nslots += n;
        self.names.insert(name.to_string(), (s, n));
        s
    }

    /// a value of the given type, flattened
    fn val(&mut self, ty: &Ty) -> R<Vec<Op>> {
        let n = ty.nslots();
        let t = self.peek();
        if t.starts_with('%') {
            self.tok()?;
            let s = self.slot_of(&t[1..], n as u32);
            return Ok((0..n as u32).map(|i| Op::R(s + i)).collect());
        }
        match t {
            "undef" | "poison" | "zeroinitializer" => {
                self.tok()?;
                let mut sl = vec![];
                ty.slots(0, &mut sl);
                return Ok(sl
                    .iter()
                    .map(|(_, w)| if *w > 64 { Op::W(expr::cst(0, *w)) } else { Op::C(0) })
                    .collect());
            }
            _ => {}
        }
        match ty {
            Ty::Arr(_, _) | Ty::Struct(_, _) => {
                let close = match self.tok()? {
                    "{" => "}",
                    "[" => "]",
                    "<" => {
                        self.expect("{")?;
                        "}"
                    }
                    x => return Err(format!("aggregate constant {}", x)),
                };
                let mut out = vec![];
                if self.eat(close) {
                    return Ok(out);
                }
                loop {
                    let et = self.ty()?;
                    out.extend(self.val(&et)?);
                    if self.eat(close) {
                        break;
                    }
                    self.expect(",")?;
                }
                if let Ty::Struct(_, true) = ty {
                    self.expect(">")?;
                }
                Ok(out)
            }
            Ty::Int(w) if *w > 64 => {
                let t = self.tok()?;
                let v = Self::int_of(t).ok_or_else(|| format!("wide const {}", t))?;
                Ok(vec![Op::W(expr::cst(v, *w))])
            }
            Ty::Meta => {
                // metadata operand: skip
                self.tok()?;
                Ok(vec![])
            }
            Ty::Bad => Err("vector value".into()),
            _ => Ok(vec![Op::C(self.const64(ty)?)]),
        }
    }
    fn val1(&mut self, ty: &Ty) -> R<Op> {
        let v = self.val(ty)?;
        if v.len() != 1 {
            return Err("scalar expected".into());
        }
        Ok(v[0])
    }
    fn label(&mut self) -> R<u32> {
        self.expect("label")?;
        let t = self.tok()?;
        Ok(self.lab(&t[1..]))
    }
    fn lab(&mut self, n: &str) -> u32 {
        let n = n.trim_matches('"');
        if let Some(i) = self.labels.get(n) {
            return *i;
        }
        let i = self.labels.len() as u32;
        self.labels.insert(n.to_string(), i);
        i
    }
}

fn float_const(t: &str, ty: &Ty) -> R<u64> {
    let v: f64 = if let Some(h) = t.strip_prefix("0x") {
        if h.starts_with('H') {
            return u64::from_str_radix(&h[1..], 16).map_err(|_| "half".to_string());
        }
        f64::from_bits(u64::from_str_radix(h, 16).map_err(|_| format!("float {}", t))?)
    } else {
        t.parse().map_err(|_| format!("float {}", t))?
    };
    Ok(match ty {
        Ty::F32 => (v as f32).to_bits() as u64,
        _ => v.to_bits(),
    })
}

fn width_of(t: &Ty) -> R<u32> {
    Ok(match t {
        Ty::Int(w) => *w,
        Ty::Ptr | Ty::F64 => 64,
        Ty::F32 => 32,
        Ty::F16 => 16,
        _ => return Err(format!("scalar type expected, got {:?}", t)),
    })
}

fn parse_func(l: &mut Link, module: usize, text: &'static str, name: &str) -> R<Func> {
    let mut p = Parser::new(l, module, text);
    p.expect("define")?;
    // up to the return type
    let mut nret = 0;
    loop {
        p.skip_attrs()?;
        let t = p.peek();
        if t.starts_with('@') {
            p.tok()?;
            break;
        }
        if Parser::is_type_start(t) {
            let ty = p.ty()?;
            nret = ty.nslots() as u32;
            continue;
        }
        p.tok()?;
    }
    p.expect("(")?;
    let mut unnamed = 0;
    if !p.eat(")") {
        loop {
            if p.eat("...") {
                p.expect(")")?;
                break;
            }
            let ty = p.ty()?;
            p.skip_attrs()?;
            let n = ty.nslots() as u32;
            let t = p.peek();
            if t.starts_with('%') {
                p.tok()?;
                p.slot_of(&t[1..], n);
                if t[1..].bytes().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
            } else {
                p.slot_of(&format!("{}", unnamed), n);
                unnamed += 1;
            }
            if p.eat(")") {
                break;
            }
            p.expect(",")?;
        }
    }
    let nparams = p.nslots;
    // to the end of the header line
    p.eol();
    let mut blocks: Vec<Block> = vec![];
    let mut cur: usize = usize::MAX;
    let mut allocas = 0;
    // (block, dst slot, ws, Vec<(pred, ops)>)
    let mut phis: Vec<(usize, u32, u32, Vec<(u32, Vec<Op>)>)> = vec![];
    let mut defined: Vec<bool> = vec![];
    loop {
        p.ws();
        if p.p >= p.s.len() {
            break;
        }
        // label?
        let e = p.tok_end(p.p);
        let t = &p.s[p.p..e];
        if t == "}" {
            break;
        }
        if p.s.as_bytes().get(e) == Some(&b':') && !t.starts_with('%') {
            let id = p.lab(t) as usize;
            while blocks.len() <= id {
                blocks.push(Block::default());
                defined.push(false);
            }
            blocks[id].name = t.to_string();
            defined[id] = true;
            cur = id;
            p.p = e + 1;
            p.eol();
            continue;
        }
        if cur == usize::MAX {
            let nm = format!("{}", unnamed);
            let id = p.lab(&nm) as usize;
            assert_eq!(id, 0);
            blocks.push(Block::default());
            defined.push(true);
            cur = id;
        }
        let start = p.p;
        let r = parse_inst(&mut p, &mut allocas);
        match r {
            Ok(Parsed::Inst(i)) => {
                blocks[cur].insts.push(i);
            }
            Ok(Parsed::Phi(dst, n, inc)) => {
                phis.push((cur, dst, n, inc));
            }
            Ok(Parsed::None) => {}
            Err(e) => {
                let _ = start;
                let le = p.s[start..].find('\n').map(|x| start + x).unwrap_or(p.s.len());
                let ln = &p.s[start..le];
                // keep the destination defined so that the function still parses
                blocks[cur].insts.push(Inst::Unsupported(format!("{}: {}", e, ln)));
                p.p = start;
            }
        }
        p.eol();
    }
    // make sure every label exists
    let nl = p.labels.len();
    while blocks.len() < nl {
        blocks.push(Block::default());
        defined.push(false);
    }
    if defined.iter().any(|d| !d) {
        let missing: Vec<_> = p
            .labels
            .iter()
            .filter(|(_, i)| !defined[**i as usize])
            .map(|(n, _)| n.clone())
            .collect();
        return Err(format!("undefined labels {:?}", missing));
    }
    for (b, dst, n, inc) in phis {
        for (pred, ops) in inc {
            let e = match blocks[b].phis.iter().position(|x| x.0 == pred) {
                Some(i) => i,
                None => {
                    blocks[b].phis.push((pred, vec![]));
                    blocks[b].phis.len() - 1
                }
            };
            // an edge may be listed twice (switch with several cases to one block)
            let list = &mut blocks[b].phis[e].1;
            if list.iter().any(|x| x.0 == dst) {
                continue;
            }
            for k in 0..n {
                list.push((dst + k, ops[k as usize]));
            }
        }
    }
    Ok(Func { name: name.to_string(), nparams, nslots: p.nslots, nret, blocks, allocas })
}

enum Parsed {
    Inst(Inst),
    Phi(u32, u32, Vec<(u32, Vec<Op>)>),
    None,
}

fn parse_inst(p: &mut Parser, allocas: &mut u32) -> R<Parsed> {
    let mut dst_name: Option<&'static str> = None;
    if p.peek().starts_with('%') {
        let t = p.tok()?;
        dst_name = Some(&t[1..]);
        p.expect("=")?;
    }
    let op = p.tok()?;
    let dn = dst_name.unwrap_or("");
    macro_rules! inst {
        ($e:expr) => {
            Ok(Parsed::Inst($e))
        };
    }
    let binop = match op {
        "add" => Some(BinOp::Add),
        "sub" => Some(BinOp::Sub),
        "mul" => Some(BinOp::Mul),
        "udiv" => Some(BinOp::UDiv),
        "sdiv" => Some(BinOp::SDiv),
        "urem" => Some(BinOp::URem),
        "srem" => Some(BinOp::SRem),
        "and" => Some(BinOp::And),
        "or" => Some(BinOp::Or),
        "xor" => Some(BinOp::Xor),
        "shl" => Some(BinOp::Shl),
        "lshr" => Some(BinOp::LShr),
        "ashr" => Some(BinOp::AShr),
        _ => None,
    };
    if let Some(k) = binop {
        p.skip_attrs()?;
        let ty = p.ty()?;
        let w = width_of(&ty)?;
        let a = p.val1(&ty)?;
        p.expect(",")?;
        let b = p.val1(&ty)?;
        let d = p.slot_of(dn, 1);
        return inst!(Inst::Bin(k, w, d, a, b));
    }
    match op {
        "icmp" => {
            let mut t = p.tok()?;
            if t == "samesign" {
                t = p.tok()?;
            }
            let pr = match t {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                _ => return Err(format!("icmp {}", t)),
            };
            let ty = p.ty()?;
            let w = width_of(&ty)?;
            let a = p.val1(&ty)?;
            p.expect(",")?;
            let b = p.val1(&ty)?;
            let d = p.slot_of(dn, 1);
            inst!(Inst::Icmp(pr, w, d, a, b))
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
            p.skip_attrs()?;
            let ty = p.ty()?;
            let w = width_of(&ty)?;
            let a = p.val1(&ty)?;
            p.expect("to")?;
            let t2 = p.ty()?;
            let w2 = width_of(&t2)?;
            let d = p.slot_of(dn, 1);
            let k = match op {
                "trunc" => CastK::Trunc,
                "sext" => CastK::SExt,
                "zext" => CastK::ZExt,
                _ => {
                    if w == w2 {
                        CastK::Copy
                    } else if w2 < w {
                        CastK::Trunc
                    } else {
                        CastK::ZExt
                    }
                }
            };
            inst!(Inst::Cast(k, w, w2, d, a))
        }
        "select" => {
            p.skip_attrs()?;
            let ct = p.ty()?;
            let c = p.val1(&ct)?;
            p.expect(",")?;
            let ty = p.ty()?;
            let a = p.val(&ty)?;
            p.expect(",")?;
            let ty2 = p.ty()?;
            let b = p.val(&ty2)?;
            let mut sl = vec![];
            ty.slots(0, &mut sl);
            let d = p.slot_of(dn, sl.len() as u32);
            inst!(Inst::Select {
                dst: d,
                c,
                ws: sl.iter().map(|x| x.1).collect(),
                a: a.into(),
                b: b.into()
            })
        }
        "freeze" => {
            let ty = p.ty()?;
            let a = p.val(&ty)?;
            let d = p.slot_of(dn, a.len() as u32);
            inst!(Inst::Moves(a.iter().enumerate().map(|(i, o)| (d + i as u32, *o)).collect()))
        }
        "load" => {
            while matches!(p.peek(), "atomic" | "volatile") {
                p.tok()?;
            }
            let ty = p.ty()?;
            p.expect(",")?;
            let pt = p.ty()?;
            let a = p.val1(&pt)?;
            let mut sl = vec![];
            ty.slots(0, &mut sl);
            let d = p.slot_of(dn, sl.len() as u32);
            if ty == Ty::Bad {
                return Err("load of an unsupported type".into());
            }
            if sl.len() == 1 {
                inst!(Inst::Load1 { dst: d, w: sl[0].1, p: a })
            } else {
                inst!(Inst::Load { dst: d, slots: sl.into(), p: a })
            }
        }
        "store" => {
            while matches!(p.peek(), "atomic" | "volatile") {
                p.tok()?;
            }
            let ty = p.ty()?;
            let v = p.val(&ty)?;
            p.expect(",")?;
            let pt = p.ty()?;
            let a = p.val1(&pt)?;
            let mut sl = vec![];
            ty.slots(0, &mut sl);
            if sl.len() == 1 {
                inst!(Inst::Store1 { v: v[0], w: sl[0].1, p: a })
            } else {
                inst!(Inst::Store {
                    vals: sl.iter().zip(v.iter()).map(|(s, o)| (s.0, s.1, *o)).collect(),
                    p: a
                })
            }
        }
        "getelementptr" => {
            p.skip_attrs()?;
            let t = p.ty()?;
            p.expect(",")?;
            let bt = p.ty()?;
            let base = p.val1(&bt)?;
            let mut off: u64 = 0;
            let mut terms = vec![];
            let mut cur = t;
            let mut first = true;
            while p.peek() == "," {
                let save = p.p;
                p.tok()?;
                if p.peek().starts_with('!') {
                    p.p = save;
                    break;
                }
                p.skip_attrs()?;
                let it = p.ty()?;
                let w = width_of(&it)?;
                let i = p.val1(&it)?;
                let sz;
                if first {
                    sz = cur.size();
                    first = false;
                } else {
                    match &cur {
                        Ty::Arr(_, e) => {
                            let e = (**e).clone();
                            sz = e.size();
                            cur = e;
                        }
                        Ty::Struct(f, _) => {
                            let k = match i {
                                Op::C(k) => k as usize,
                                _ => return Err("struct index".into()),
                            };
                            let e = f[k].clone();
                            off = off.wrapping_add(cur.field_off(k));
                            cur = e;
                            continue;
                        }
                        _ => return Err("gep into a scalar".into()),
                    }
                }
                match i {
                    Op::C(c) => {
                        let c = expr::sext128(c as u128 & expr::mask(w), w) as i64;
                        off = off.wrapping_add((sz as i64).wrapping_mul(c) as u64)
                    }
                    _ => terms.push((i, w, sz)),
                }
            }
            let d = p.slot_of(dn, 1);
            if terms.is_empty() {
                inst!(Inst::Gep0 { dst: d, base, off })
            } else {
                inst!(Inst::Gep { dst: d, base, off, terms: terms.into() })
            }
        }
        "alloca" => {
            let ty = p.ty()?;
            let mut n = 1;
            if p.peek() == "," {
                let save = p.p;
                p.tok()?;
                if p.peek() == "align" {
                    p.p = save;
                } else {
                    let it = p.ty()?;
                    match p.val1(&it)? {
                        Op::C(c) => n = c,
                        _ => return Err("dynamic alloca".into()),
                    }
                }
            }
            *allocas += 1;
            let d = p.slot_of(dn, 1);
            inst!(Inst::Alloca { dst: d, size: ty.size() * n })
        }
        "extractvalue" => {
            let ty = p.ty()?;
            let v = p.val(&ty)?;
            let (mut s, mut cur) = (0usize, ty);
            while p.eat(",") {
                if p.peek().starts_with('!') {
                    break;
                }
                let i: usize = p.tok()?.parse().map_err(|_| "index".to_string())?;
                let (ds, nt) = agg_index(&cur, i)?;
                s += ds;
                cur = nt;
            }
            let n = cur.nslots();
            let d = p.slot_of(dn, n as u32);
            inst!(Inst::Moves((0..n).map(|k| (d + k as u32, v[s + k])).collect()))
        }
        "insertvalue" => {
            let ty = p.ty()?;
            let v = p.val(&ty)?;
            p.expect(",")?;
            let et = p.ty()?;
            let e = p.val(&et)?;
            let (mut s, mut cur) = (0usize, ty);
            while p.eat(",") {
                if p.peek().starts_with('!') {
                    break;
                }
                let i: usize = p.tok()?.parse().map_err(|_| "index".to_string())?;
                let (ds, nt) = agg_index(&cur, i)?;
                s += ds;
                cur = nt;
            }
            let d = p.slot_of(dn, v.len() as u32);
            inst!(Inst::Moves(
                (0..v.len())
                    .map(|k| {
                        let o = if k >= s && k < s + e.len() { e[k - s] } else { v[k] };
                        (d + k as u32, o)
                    })
                    .collect()
            ))
        }
        "phi" => {
            p.skip_attrs()?;
            let ty = p.ty()?;
            let n = ty.nslots() as u32;
            let mut inc = vec![];
            loop {
                p.expect("[")?;
                let v = p.val(&ty)?;
                p.expect(",")?;
                let l = p.tok()?;
                let l = p.lab(&l[1..]);
                p.expect("]")?;
                inc.push((l, v));
                if p.peek() == "," {
                    let save = p.p;
                    p.tok()?;
                    if p.peek() != "[" {
                        p.p = save;
                        break;
                    }
                } else {
                    break;
                }
            }
            let d = p.slot_of(dn, n);
            Ok(Parsed::Phi(d, n, inc))
        }
        "br" => {
            if p.peek() == "label" {
                let l = p.label()?;
                inst!(Inst::Br(l))
            } else {
                let ty = p.ty()?;
                let c = p.val1(&ty)?;
                p.expect(",")?;
                let a = p.label()?;
                p.expect(",")?;
                let b = p.label()?;
                inst!(Inst::CondBr(c, a, b))
            }
        }
        "switch" => {
            let ty = p.ty()?;
            let w = width_of(&ty)?;
            let v = p.val1(&ty)?;
            p.expect(",")?;
            let default = p.label()?;
            p.expect("[")?;
            let mut cases = vec![];
            while !p.eat("]") {
                let t = p.ty()?;
                let c = p.const64(&t)?;
                p.expect(",")?;
                let l = p.label()?;
                cases.push((c, l));
            }
            cases.sort();
            if w > 64 {
                return Err("wide switch".into());
            }
            inst!(Inst::Switch(Box::new(Switch { v, w, cases, default })))
        }
        "ret" => {
            let ty = p.ty()?;
            if ty == Ty::Void {
                return inst!(Inst::Ret(Box::new([])));
            }
            let v = p.val(&ty)?;
            inst!(Inst::Ret(v.into()))
        }
        "unreachable" => inst!(Inst::Unreachable),
        "fence" => Ok(Parsed::None),
        "tail" | "musttail" | "notail" | "call" => {
            if op != "call" {
                p.expect("call")?;
            }
            p.skip_attrs()?;
            let rty = p.ty()?;
            p.skip_attrs()?;
            // optional function type for varargs calls
            if p.peek() == "(" {
                p.tok()?;
                p.skip_group()?;
            }
            let t = p.tok()?;
            if t == "asm" {
                return Err("inline asm".into());
            }
            let nret = rty.nslots() as u32;
            if t.starts_with("@llvm.") {
                let n = &t[1..];
                for skip in [
                    "llvm.lifetime",
                    "llvm.assume",
                    "llvm.experimental.noalias",
                    "llvm.dbg",
                    "llvm.prefetch",
                    "llvm.va_end",
                    "llvm.donothing",
                    "llvm.invariant",
                ] {
                    if n.starts_with(skip) {
                        return Ok(Parsed::None);
                    }
                }
                let (args, tys) = call_args(p)?;
                let d = if nret > 0 { p.slot_of(dn, nret) } else { 0 };
                let w = match tys.first() {
                    Some(t) => width_of(t).unwrap_or(0),
                    None => 0,
                };
                let w2 = match &rty {
                    Ty::Void => 0,
                    Ty::Struct(..) => w,
                    t => width_of(t).unwrap_or(0),
                };
                let k = intr_of(n, &tys);
                return match k {
                    Some(k) => inst!(Inst::Intr(Box::new(IntrI { k, w, w2, dst: d, args }))),
                    None => inst!(Inst::Unsupported(format!("intrinsic {}", n))),
                };
            }
            let target = if t.starts_with('@') {
                let a = p.l.sym_addr(p.module, t[1..].trim_matches('"'));
                match addr_fn(a) {
                    Some(f) => Callee::Fn(f),
                    None => return Err("call of a non-function".into()),
                }
            } else if t.starts_with('%') {
                Callee::Ind(Op::R(p.slot_of(&t[1..], 1)))
            } else if t == "inttoptr" {
                let v = p.const_expr(t)?;
                Callee::Ind(Op::C(v))
            } else {
                return Err(format!("callee {}", t));
            };
            let (args, _) = call_args(p)?;
            let d = if nret > 0 { p.slot_of(dn, nret) } else { 0 };
            inst!(Inst::Call(Box::new(CallI { dst: d, nret, target, args })))
        }
        "atomicrmw" => {
            p.eat("volatile");
            let k = p.tok()?;
            let pt = p.ty()?;
            let a = p.val1(&pt)?;
            p.expect(",")?;
            let ty = p.ty()?;
            let v = p.val1(&ty)?;
            let w = width_of(&ty)?;
            let d = p.slot_of(dn, 1);
            let (op, x) = match k {
                "add" => (BinOp::Add, false),
                "sub" => (BinOp::Sub, false),
                "and" => (BinOp::And, false),
                "or" => (BinOp::Or, false),
                "xor" => (BinOp::Xor, false),
                "xchg" => (BinOp::Add, true),
                _ => return Err(format!("atomicrmw {}", k)),
            };
            inst!(Inst::AtomicRmw { op, xchg: x, dst: d, p: a, v, w })
        }
        "cmpxchg" => {
            while matches!(p.peek(), "weak" | "volatile") {
                p.tok()?;
            }
            let pt = p.ty()?;
            let a = p.val1(&pt)?;
            p.expect(",")?;
            let ty = p.ty()?;
            let e = p.val1(&ty)?;
            p.expect(",")?;
            let ty = p.ty()?;
            let n = p.val1(&ty)?;
            let w = width_of(&ty)?;
            let d = p.slot_of(dn, 2);
            inst!(Inst::CmpXchg { dst: d, p: a, e, n, w })
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            p.skip_attrs()?;
            let ty = p.ty()?;
            let w = width_of(&ty)?;
            let a = p.val1(&ty)?;
            p.expect(",")?;
            let b = p.val1(&ty)?;
            let d = p.slot_of(dn, 1);
            inst!(Inst::FBin(op.as_bytes()[1], w, d, a, b))
        }
        "fcmp" => {
            while !matches!(p.peek(), "oeq" | "one" | "olt" | "ole" | "ogt" | "oge" | "ord" | "uno" | "ueq" | "une" | "ult" | "ule" | "ugt" | "uge" | "true" | "false") {
                p.tok()?;
            }
            let k = p.tok()?;
            let ty = p.ty()?;
            let w = width_of(&ty)?;
            let a = p.val1(&ty)?;
            p.expect(",")?;
            let b = p.val1(&ty)?;
            let d = p.slot_of(dn, 1);
            inst!(Inst::FCmp(k.to_string(), w, d, a, b))
        }
        "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" => {
            p.skip_attrs()?;
            let ty = p.ty()?;
            let w = width_of(&ty)?;
            let a = p.val1(&ty)?;
            p.expect("to")?;
            let t2 = p.ty()?;
            let w2 = width_of(&t2)?;
            let d = p.slot_of(dn, 1);
            inst!(Inst::FCast(op.to_string(), w, w2, d, a))
        }
        _ => Err(format!("opcode {}", op)),
    }
}

fn agg_index(t: &Ty, i: usize) -> R<(usize, Ty)> {
    match t {
        Ty::Struct(f, _) => {
            Ok((f[..i].iter().map(|x| x.nslots()).sum(), f[i].clone()))
        }
        Ty::Arr(_, e) => Ok((i * e.nslots(), (**e).clone())),
        _ => Err("index into a scalar".into()),
    }
}

fn call_args(p: &mut Parser) -> R<(Vec<Op>, Vec<Ty>)> {
    p.expect("(")?;
    let mut args = vec![];
    let mut tys = vec![];
    if p.eat(")") {
        return Ok((args, tys));
    }
    loop {
        let ty = p.ty()?;
        p.skip_attrs()?;
        args.extend(p.val(&ty)?);
        tys.push(ty);
        if p.eat(")") {
            break;
        }
        p.expect(",")?;
    }
    Ok((args, tys))
}

fn intr_of(n: &str, _tys: &[Ty]) -> Option<Intr> {
    let pre = |s: &str| n.starts_with(s);
    Some(if pre("llvm.memcpy") {
        Intr::Memcpy
    } else if pre("llvm.memmove") {
        Intr::Memmove
    } else if pre("llvm.memset") {
        Intr::Memset
    } else if pre("llvm.uadd.with") {
        Intr::AddO(false)
    } else if pre("llvm.sadd.with") {
        Intr::AddO(true)
    } else if pre("llvm.usub.with") {
        Intr::SubO(false)
    } else if pre("llvm.ssub.with") {
        Intr::SubO(true)
    } else if pre("llvm.umul.with") {
        Intr::MulO(false)
    } else if pre("llvm.smul.with") {
        Intr::MulO(true)
    } else if pre("llvm.uadd.sat") {
        Intr::AddSat(false)
    } else if pre("llvm.sadd.sat") {
        Intr::AddSat(true)
    } else if pre("llvm.usub.sat") {
        Intr::SubSat(false)
    } else if pre("llvm.ssub.sat") {
        Intr::SubSat(true)
    } else if pre("llvm.umin") {
        Intr::Min(false)
    } else if pre("llvm.smin") {
        Intr::Min(true)
    } else if pre("llvm.umax") {
        Intr::Max(false)
    } else if pre("llvm.smax") {
        Intr::Max(true)
    } else if pre("llvm.abs") {
        Intr::Abs
    } else if pre("llvm.ctpop") {
        Intr::Ctpop
    } else if pre("llvm.ctlz") {
        Intr::Ctlz
    } else if pre("llvm.cttz") {
        Intr::Cttz
    } else if pre("llvm.bswap") {
        Intr::Bswap
    } else if pre("llvm.bitreverse") {
        Intr::Bitreverse
    } else if pre("llvm.fshl") {
        Intr::Fshl
    } else if pre("llvm.fshr") {
        Intr::Fshr
    } else if pre("llvm.ucmp") {
        Intr::Cmp3(false)
    } else if pre("llvm.scmp") {
        Intr::Cmp3(true)
    } else if pre("llvm.expect") || pre("llvm.threadlocal.address") || pre("llvm.launder")
        || pre("llvm.strip") || pre("llvm.ptrmask.none")
    {
        Intr::Copy
    } else if pre("llvm.trap") {
        Intr::Trap
    } else if pre("llvm.log10") {
        Intr::FUn("log10")
    } else if pre("llvm.ceil") {
        Intr::FUn("ceil")
    } else if pre("llvm.floor") {
        Intr::FUn("floor")
    } else if pre("llvm.fabs") {
        Intr::FUn("fabs")
    } else if pre("llvm.fptoui.sat") {
        Intr::FToIntSat(false)
    } else if pre("llvm.fptosi.sat") {
        Intr::FToIntSat(true)
    } else {
        return None;
    })
}
