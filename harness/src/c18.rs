//! C18: the front end without its logger, next to the one that has it.
use crate::c02::{base_text, koopa_text, Byte, Cut, Edited, BASE};
use crate::c14;
use crate::sym;
use crate::vfs;
use koopa::front::driver::Driver;
use koopa::front::span::{FileType, Pos, Span};
use koopa::{log_error, log_fatal_error, log_raw_error, log_raw_fatal_error, log_raw_warning, log_warning};
use koopa_nolog as quiet;
use quiet::front::span as qspan;
use std::io::{Error, ErrorKind, Read, Result};
use std::path::PathBuf;

/// A reader that keeps what was read and where reading failed.
struct Keep<R> {
    r: R,
    s: Vec<u8>,
    failed: bool,
}
impl<R: Read> Read for Keep<R> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        match self.r.read(b) {
            Ok(n) => {
                self.s.extend_from_slice(&b[..n]);
                Ok(n)
            }
            Err(e) => {
                self.failed = true;
                Err(e)
            }
        }
    }
}

/// Gives the same once more.
struct Replay {
    s: Vec<u8>,
    at: usize,
    fail: bool,
}
impl Read for Replay {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.at == self.s.len() {
            return if self.fail { Err(Error::from(ErrorKind::Other)) } else { Ok(0) };
        }
        b[0] = self.s[self.at];
        self.at += 1;
        Ok(1)
    }
}

/// The messages among what the logger printed, with their places.
fn told(out: &[u8]) -> Vec<u8> {
    let ls: Vec<&[u8]> = out.split(|c| *c == b'\n').collect();
    let mut v: Vec<u8> = vec![];
    let mut first = true;
    for (i, l) in ls.iter().enumerate() {
        let Some(m) = l.strip_prefix(b"error: ") else { continue };
        if !first {
            v.push(b'\n');
        }
        first = false;
        if let Some(at) = ls.get(i + 1).and_then(|n| n.strip_prefix(b"  at ")) {
            v.extend_from_slice(at);
            v.extend_from_slice(b": ");
        }
        v.extend_from_slice(m);
    }
    v
}

fn text(e: qspan::Error) -> (bool, String) {
    let f = e.is_fatal();
    match e {
        qspan::Error::Normal(s) | qspan::Error::Fatal(s) => (f, s),
    }
}

/// Both decide alike, and the error of the quiet one tells what the logger
/// of the other one printed.
pub fn same<R: Read>(r: R) {
    let mut k = Keep { r, s: vec![], failed: false };
    vfs::capture();
    let p = Driver::new(FileType::Buffer, &mut k).generate_program();
    let out = vfs::captured();
    let (e, w) = (Span::error_num(), Span::warning_num());
    if p.is_err() && !k.failed {
        let mut b = [0];
        while let Ok(1) = k.read(&mut b) {}
    }
    let again = Replay { s: k.s, at: 0, fail: k.failed };
    vfs::capture();
    let q = quiet::front::driver::Driver::new(qspan::FileType::Buffer, again).generate_program();
    let err = vfs::captured();
    judge(p, (e, w), &out, q, &err);
}

fn judge(
    p: std::result::Result<koopa::ir::Program, koopa::front::span::Error>,
    n: (usize, usize),
    out: &[u8],
    q: std::result::Result<quiet::ir::Program, qspan::Error>,
    err: &[u8],
) {
    sym::check(err.is_empty(), "something is printed although the logger is disabled");
    sym::check(n == (qspan::Span::error_num(), qspan::Span::warning_num()), "the number of errors depends on the logger");
    match (p, q) {
        (Ok(p), Ok(q)) => {
            let mut g = quiet::back::KoopaGenerator::new(Vec::new());
            sym::check(g.generate_on(&q).is_ok(), "writing to memory failed");
            sym::check(g.writer() == koopa_text(&p), "the program depends on the logger");
            sym::reach(0);
        }
        (Err(e), Err(f)) => {
            let (fatal, s) = text(f);
            sym::check(e.is_fatal() == fatal, "whether an error is fatal depends on the logger");
            sym::check(s.as_bytes() == &told(out)[..], "an error does not hold the messages of what is wrong");
            sym::reach(1);
        }
        _ => sym::check(false, "whether a text is accepted depends on the logger"),
    }
}

fn bytes(n: usize) {
    let v: Vec<u8> = (0..n).map(|_| sym::u8()).collect();
    same(&v[..]);
}
fn quiet_bytes() {
    bytes(sym::pick(4))
}
fn quiet_bytes4() {
    bytes(4)
}
fn quiet_edit() {
    same(Edited::new(0, BASE.len(), 1));
}
fn quiet_byte() {
    same(Byte::new(false));
}
fn quiet_cut() {
    let fail = sym::pick(2) == 1;
    same(Cut { text: base_text(), at: 0, fail, done: false });
}

/// The families of texts that the reference decides.
fn quiet_front() {
    match sym::pick(8) {
        0 => c14::front_big(),
        7 => c14::front_two(),
        1 => c14::front_init(),
        2 => c14::front_args(),
        3 => c14::front_names(),
        4 => c14::front_twin(),
        5 => c14::front_items(),
        _ => c14::front_flow(),
    }
}

/// Several mistakes at once, up to more than are allowed.
fn quiet_many() {
    let bad = ["decl @f()\n", "global @f = alloc i32, {1}\n", "fun @f() {\n%e:\nret 1\n}\n", "decl (\n", "decl @g()\n", "$ ", "fun @h() {\n%e:\njump %no\n}\n"];
    let mut s = b"decl @f()\n".to_vec();
    let (a, b) = (bad[sym::pick(7)], bad[sym::pick(7)]);
    let n = [0, 1, 2, 3, 9, 10, 11, 19, 20, 21, 25][sym::pick(11)];
    for i in 0..n {
        s.extend_from_slice(if i % 2 == 0 { a } else { b }.as_bytes());
    }
    let last = sym::pick(3);
    s.extend_from_slice([&b""[..], b"/* ", b"decl @last()"][last]);
    same(&s[..]);
}

/// One driver after another, from files and from memory.
fn quiet_apart() {
    let texts = ["decl @f()\n", "", "#", "decl @f() decl @f()\n", "fun @f() {\n%e:\nret 1\n}\nglobal @g = ", "decl @f(\u{e9}) $"];
    for i in 0..3 {
        let t = texts[sym::pick(6)];
        if sym::pick(2) == 1 {
            let path = vfs::put(&format!("q{}.koopa", i), t.as_bytes());
            vfs::capture();
            let p = Driver::from_path(&path).ok().unwrap().generate_program();
            let out = vfs::captured();
            let n = (Span::error_num(), Span::warning_num());
            vfs::capture();
            let q = quiet::front::driver::Driver::from_path(&path).ok().unwrap().generate_program();
            let err = vfs::captured();
            judge(p, n, &out, q, &err);
            sym::check(vfs::open_files() == 0, "a file is left open");
        } else {
            same(t.as_bytes());
        }
        // reports in between are no part of the next answer
        if sym::pick(2) == 1 {
            Span::log_raw_error(format_args!("x"));
            qspan::Span::log_raw_error(format_args!("x"));
        }
    }
}

/// The reports that users of spans make themselves.
fn quiet_reports() {
    let mut pos = Pos::new();
    let mut qpos = qspan::Pos::new();
    for _ in 0..sym::pick(4) {
        let c = sym::u8() as char;
        pos.update(c);
        qpos.update(c);
    }
    let name = ["a.koopa", "", "x y"][sym::pick(3)];
    match sym::pick(3) {
        0 => {
            Span::reset(FileType::Buffer);
            qspan::Span::reset(qspan::FileType::Buffer);
        }
        1 => {
            Span::reset(FileType::Stdin);
            qspan::Span::reset(qspan::FileType::Stdin);
        }
        _ => {
            Span::reset(FileType::File(PathBuf::from(name)));
            qspan::Span::reset(qspan::FileType::File(PathBuf::from(name)));
        }
    }
    let s = Span::new(pos);
    let q = qspan::Span::new(qpos);
    let v = sym::u8() as u32 as usize;
    for _ in 0..3 {
        vfs::capture();
        let (e, f) = match sym::pick(6) {
            0 => (log_error!(s, "m{}", v), q.log_error(format_args!("m{}", v))),
            1 => (log_fatal_error!(s, "m"), q.log_fatal_error(format_args!("m"))),
            2 => (log_raw_error!("{} m", v), qspan::Span::log_raw_error(format_args!("{} m", v))),
            3 => (log_raw_fatal_error!("m"), qspan::Span::log_raw_fatal_error(format_args!("m"))),
            k => {
                if k == 4 {
                    log_warning!(s, "m");
                    q.log_warning(format_args!("m"));
                } else {
                    log_raw_warning!("m");
                    qspan::Span::log_raw_warning(format_args!("m"));
                }
                vfs::captured();
                sym::check(Span::warning_num() == qspan::Span::warning_num(), "the number of warnings depends on the logger");
                continue;
            }
        };
        let out = vfs::captured();
        let (fatal, t) = text(f);
        sym::check(e.is_fatal() == fatal, "whether an error is fatal depends on the logger");
        sym::check(t.as_bytes() == &told(&out)[..], "an error does not hold the message of what is wrong");
        sym::check(
            (Span::error_num(), Span::warning_num()) == (qspan::Span::error_num(), qspan::Span::warning_num()),
            "the number of errors depends on the logger",
        );
        sym::reach(0);
    }
    sym::check(format!("{:?}", s) == format!("{:?}", q), "a span depends on the logger");
    vfs::capture();
    qspan::Span::log_global();
    sym::check(vfs::captured().is_empty(), "something is printed although the logger is disabled");
}

crate::harnesses! { quiet_bytes quiet_bytes4 quiet_edit quiet_byte quiet_cut quiet_front quiet_many quiet_apart quiet_reports }
