//! Whatever the input, the front end answers with a program or with an error.
use crate::sym;
use crate::util::*;
use koopa::back::{KoopaGenerator, LlvmGenerator};
use koopa::front::driver::Driver;
use koopa::front::span::{FileType, Span};
use koopa::ir::*;
use std::io::{Error, ErrorKind, Read, Result};

pub fn koopa_text(p: &Program) -> Vec<u8> {
    let mut g = KoopaGenerator::new(Vec::new());
    sym::check(g.generate_on(p).is_ok(), "writing to memory failed");
    g.writer()
}

pub fn llvm_text(p: &Program) -> Vec<u8> {
    let mut g = LlvmGenerator::new(Vec::new());
    sym::check(g.generate_on(p).is_ok(), "writing to memory failed");
    g.writer()
}

pub fn parse<R: Read>(r: R) -> Option<Program> {
    Driver::new(FileType::Buffer, r).generate_program().ok()
}

/// The answer fits the number of errors reported, and a program that was
/// accepted is in order.
pub fn settle<R: Read>(r: R) -> Option<Program> {
    let d = Driver::new(FileType::Buffer, r);
    match d.generate_program() {
        Ok(p) => {
            sym::check(Span::error_num() == 0, "a program was returned although errors were reported");
            check_uses(&p);
            let t = koopa_text(&p);
            llvm_text(&p);
            sym::observe_bytes(&t);
            match parse(&t[..]) {
                Some(q) => sym::check(koopa_text(&q) == t, "an accepted program is printed as another program"),
                None => sym::check(false, "an accepted program is printed as text that is not accepted"),
            }
            sym::reach(1);
            Some(p)
        }
        Err(_) => {
            sym::check(Span::error_num() > 0, "rejected without reporting an error");
            sym::observe(Span::error_num() as u64);
            sym::reach(2);
            None
        }
    }
}

pub const BASE: &[&str] = &[
    "global", "@g", "=", "alloc", "[", "i32", ",", "2", "]", ",", "{", "1", ",", "undef", "}", "\n", //
    "decl", "@d", "(", "i32", ",", "*", "i32", ")", ":", "i32", "\n", //
    "fun", "@f", "(", "%a", ":", "i32", ",", "%p", ":", "*", "i32", ")", ":", "i32", "{", "\n", //
    "%e", ":", "\n", //
    "%q", "=", "alloc", "i32", "\n", //
    "store", "%a", ",", "%q", "\n", //
    "%l", "=", "load", "%q", "\n", //
    "%s", "=", "add", "%l", ",", "1", "\n", //
    "%0", "=", "getelemptr", "@g", ",", "%s", "\n", //
    "%1", "=", "getptr", "%0", ",", "0", "\n", //
    "%c", "=", "call", "@d", "(", "%s", ",", "%1", ")", "\n", //
    "br", "%c", ",", "%t", "(", "1", ")", ",", "%u", "\n", //
    "%t", "(", "%x", ":", "i32", ")", ":", "\n", //
    "store", "zeroinit", ",", "@g", "\n", //
    "jump", "%u", "\n", //
    "%u", ":", "\n", //
    "ret", "%l", "\n", //
    "}", "\n",
];

pub const VOCAB: &[&str] = &[
    "i32", "undef", "zeroinit", "global", "alloc", "load", "store", "getptr", "getelemptr", "br", "jump", "call", "ret",
    "fun", "decl", "add", "@g", "@d", "@f", "%a", "%e", "%t", "%u", "%l", "%q", "%z", "%0", "0", "1", "-1", "3", "(",
    ")", "{", "}", "[", "]", ",", ":", "=", "*", "\n", "#", "/", "@", "-",
];

/// Delivers `BASE` with a number of edits: which and where is decided only
/// when the text gets there.
pub struct Edited {
    toks: &'static [&'static str],
    vocab: &'static [&'static str],
    at: usize,
    from: usize,
    to: usize,
    edits: usize,
    buf: &'static [u8],
    gap: bool,
}

impl Edited {
    pub fn new(from: usize, to: usize, edits: usize) -> Self {
        Edited { toks: BASE, vocab: VOCAB, at: 0, from, to, edits, buf: b"", gap: false }
    }
    fn more(&mut self) {
        let t = self.toks[self.at];
        if self.edits > 0 && self.at >= self.from && self.at < self.to && sym::pick(2) == 1 {
            self.edits -= 1;
            let n = self.vocab.len();
            let w = sym::pick(2 * n + 1);
            if w < n {
                // in place of it
                self.at += 1;
                self.buf = self.vocab[w].as_bytes();
            } else if w < 2 * n {
                // before it
                self.buf = self.vocab[w - n].as_bytes();
            } else {
                self.at += 1;
            }
            return;
        }
        self.at += 1;
        self.buf = t.as_bytes();
    }
}

impl Read for Edited {
    fn read(&mut self, out: &mut [u8]) -> Result<usize> {
        if out.is_empty() {
            return Ok(0);
        }
        if self.gap {
            self.gap = false;
            out[0] = b' ';
            return Ok(1);
        }
        while self.buf.is_empty() {
            if self.at == self.toks.len() {
                return Ok(0);
            }
            self.more();
        }
        out[0] = self.buf[0];
        self.buf = &self.buf[1..];
        self.gap = self.buf.is_empty();
        Ok(1)
    }
}

fn parse_edit() {
    settle(Edited::new(0, BASE.len(), 1));
}

fn parse_edit2() {
    // two edits a few tokens apart
    let w = sym::pick(BASE.len() / 6) * 6;
    settle(Edited::new(w, w + 9, 2));
}

fn bytes(n: usize) {
    let mut v = vec![];
    for _ in 0..n {
        v.push(sym::u8());
    }
    settle(&v[..]);
}

fn parse_bytes() {
    bytes(sym::pick(4))
}
fn parse_bytes5() {
    bytes(sym::pick(6))
}

/// The base text with one byte more, or another one, anywhere.
pub struct Byte {
    text: Vec<u8>,
    at: usize,
    done: bool,
    ascii: bool,
}

impl Byte {
    pub fn new(ascii: bool) -> Self {
        Byte { text: base_text(), at: 0, done: false, ascii }
    }
}

impl Read for Byte {
    fn read(&mut self, out: &mut [u8]) -> Result<usize> {
        if out.is_empty() {
            return Ok(0);
        }
        if !self.done && sym::pick(2) == 1 {
            self.done = true;
            if sym::pick(2) == 1 {
                self.at += 1;
            }
            let c = sym::u8();
            sym::assume(!self.ascii || c < 128);
            out[0] = c;
            return Ok(1);
        }
        if self.at >= self.text.len() {
            return Ok(0);
        }
        out[0] = self.text[self.at];
        self.at += 1;
        Ok(1)
    }
}

pub fn base_text() -> Vec<u8> {
    let mut v = vec![];
    for t in BASE {
        v.extend_from_slice(t.as_bytes());
        v.push(b' ');
    }
    v
}

fn parse_byte() {
    settle(Byte::new(false));
}

/// The base text, cut off or failing anywhere.
pub struct Cut {
    pub text: Vec<u8>,
    pub at: usize,
    pub fail: bool,
    pub done: bool,
}

impl Read for Cut {
    fn read(&mut self, out: &mut [u8]) -> Result<usize> {
        if out.is_empty() || self.at == self.text.len() {
            return Ok(0);
        }
        if sym::pick(2) == 1 {
            if self.fail {
                self.done = true;
                return Err(Error::from(ErrorKind::Other));
            }
            self.text.truncate(self.at);
            return Ok(0);
        }
        out[0] = self.text[self.at];
        self.at += 1;
        Ok(1)
    }
}

fn parse_cut() {
    settle(Cut { text: base_text(), at: 0, fail: false, done: false });
}

fn parse_io() {
    // the file cannot be read any further: never a program
    let mut c = Cut { text: base_text(), at: 0, fail: true, done: false };
    let p = parse(&mut c);
    if c.done {
        sym::check(p.is_none(), "a program was returned although the input could not be read");
        sym::check(Span::error_num() > 0, "failure to read was not reported");
        sym::reach(0);
    } else {
        sym::check(p.is_some(), "the sample program was rejected");
        sym::reach(1);
    }
}

/// Repetition does not use up the stack.
fn parse_many() {
    let n = sym::MANY;
    let mut v: Vec<u8> = vec![];
    let mut rep = |n: usize, s: &str| {
        for _ in 0..n {
            v.extend_from_slice(s.as_bytes());
        }
    };
    match sym::pick(8) {
        0 => rep(n, "// c\n"),
        1 => rep(n, "/* c */"),
        2 => rep(n, "\n \t"),
        3 => rep(n, "} "),
        4 => rep(n, "# "),
        5 => {
            rep(1, "fun @f() {\n%e:\n");
            rep(n, "store 1, %a // c\n");
        }
        6 => {
            rep(1, "global @g = alloc i32, ");
            rep(n, "/**/");
            rep(1, "1\n");
        }
        _ => {
            rep(1, "decl @d(");
            rep(n, "i32, ");
            rep(1, "i32)\n");
        }
    }
    let p = parse(&v[..]);
    sym::check(p.is_some() == (Span::error_num() == 0), "the number of errors does not fit the result");
    sym::reach(if p.is_some() { 0 } else { 1 });
}

/// Nor do long functions.
fn parse_chain() {
    let n = if cfg!(feature = "native") { 60_000 } else { 600 };
    let back = sym::pick(2) == 1;
    let mut s = String::from("fun @f(): i32 {\n%e:\n%x = add 1, 2\njump %b0\n");
    for i in 0..n {
        // forwards, or every block listed before the one that jumps to it
        let i = if back { n - 1 - i } else { i };
        if i + 1 < n {
            s.push_str(&format!("%b{}:\njump %b{}\n", i, i + 1));
        } else {
            s.push_str(&format!("%b{}:\nret %x\n", i));
        }
    }
    s.push_str("}\n");
    sym::check(parse(s.as_bytes()).is_some(), "a long function is rejected");
    sym::reach(0);
}

crate::harnesses! { parse_many parse_chain parse_edit parse_edit2 parse_bytes parse_bytes5 parse_byte parse_cut parse_io }
