//! C13: programs in and out through the C interface, and generators.
use crate::c02::{base_text, koopa_text, llvm_text, parse};
use crate::c11::{exact, whole};
use crate::capi::*;
use crate::sym;
use crate::util::check_uses;
use crate::vfs;
use koopa::back::{KoopaGenerator, LlvmGenerator};
use koopa::ir::*;
use std::ffi::c_char;
use std::io::{Error, ErrorKind, Result, Write};

const MARK: P = 0x10 as P;

fn ptr(p: &Program) -> P {
    p as *const Program as P
}
fn text_of(llvm: bool, p: &Program) -> Vec<u8> {
    if llvm {
        llvm_text(p)
    } else {
        koopa_text(p)
    }
}
fn nul(s: &[u8]) -> Vec<u8> {
    let mut v = s.to_vec();
    v.push(0);
    v
}

/// A program of one of several sorts.
fn some() -> Program {
    match sym::pick(4) {
        0 => Program::new(),
        1 => parse(&b"decl @f(i32, *i32)\n"[..]).unwrap(),
        2 => parse(&b"global @g = alloc [i32, 2], {1, 2}\nfun @f(@a: i32): i32 {\n%e:\n%0 = add @a, 1\nret %0\n}\n"[..]).unwrap(),
        _ => whole().p,
    }
}

/// The string protocol, for any length that the caller says there is.
fn c_string() {
    let p = some();
    let llvm = sym::pick(2) == 1;
    let want = text_of(llvm, &p);
    let live = sym::live();
    unsafe {
        let mut n: usize = sym::u64() as usize;
        sym::check(kc_dump_string(llvm as i32, ptr(&p), std::ptr::null_mut(), &mut n) == 0, "asking for the length fails");
        sym::check(n == want.len(), "the length is another");
        let mut buf = vec![0xeeu8; want.len() + 24];
        let room = sym::u64() as usize;
        let mut n = room;
        let e = kc_dump_string(llvm as i32, ptr(&p), buf.as_mut_ptr() as *mut c_char, &mut n);
        sym::check(n == room, "the length is changed");
        if room > want.len() {
            sym::check(e == 0, "a buffer that is large enough is refused");
            sym::check(buf[..want.len()] == want[..], "another text");
            sym::check(buf[want.len()] == 0, "no null terminator");
            sym::check(buf[want.len() + 1..].iter().all(|b| *b == 0xee), "written past the end");
            sym::reach(0);
        } else {
            sym::check(e == 6, "a buffer that is too small gets another code");
            sym::check(buf.iter().all(|b| *b == 0xee), "written to a buffer that is too small");
            sym::reach(6);
        }
    }
    sym::check(sym::live() == live, "memory is not given back");
}

/// Names with null bytes do not fit into C strings.
fn c_null() {
    let p = {
        let mut p = Program::new();
        let b = sym::u8();
        sym::assume(b < 0x80);
        let name = format!("@a{}", b as char);
        p.new_func(FunctionData::new_decl(name, vec![], Type::get_unit()));
        if b == 0 {
            sym::reach(5)
        } else {
            sym::reach(0)
        }
        (p, b)
    };
    let (p, b) = p;
    let llvm = sym::pick(2) == 1;
    unsafe {
        let mut buf = [0xeeu8; 64];
        let mut n = 64;
        let e = kc_dump_string(llvm as i32, ptr(&p), buf.as_mut_ptr() as *mut c_char, &mut n);
        sym::check(e == if b == 0 { 5 } else { 0 }, "another code for a text with a null byte");
        sym::check(n == 64, "the length is changed");
        sym::check(b != 0 || buf.iter().all(|b| *b == 0xee), "the buffer is written");
        let mut m = 77;
        let e = kc_dump_string(llvm as i32, ptr(&p), std::ptr::null_mut(), &mut m);
        sym::check(e == if b == 0 { 5 } else { 0 }, "another code for a text with a null byte");
        sym::check(b != 0 || m == 77, "the length is changed");
    }
}

/// The answer to reading `data`.
fn answer(e: i32, got: P, data: &[u8]) {
    unsafe {
        match parse(data) {
            Some(p) => {
                sym::check(e == 0, "a valid text is refused");
                sym::check(got != MARK && !got.is_null(), "no program");
                exact(&p, &*(got as *const Program));
                check_uses(&*(got as *const Program));
                kc_delete(got);
                sym::reach(0);
            }
            None => {
                sym::check(e == 3, "an invalid text gets another code");
                sym::check(got == MARK, "the program is changed");
                sym::reach(3);
            }
        }
    }
}

fn utf8(b: &[u8]) -> bool {
    // the definition, by hand: the code uses the library
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = match c {
            0..=0x7f => (0, 0, 0),
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xe1..=0xec | 0xee..=0xef => (2, 0x80, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => return false,
        };
        for j in 1..=n {
            let (lo, hi) = if j == 1 { (lo, hi) } else { (0x80, 0xbf) };
            if i + j >= b.len() || b[i + j] < lo || b[i + j] > hi {
                return false;
            }
        }
        i += n + 1;
    }
    true
}

/// Strings of any bytes.
fn c_parse_string() {
    let b = sym::u8();
    sym::assume(b != 0);
    let mut any = [&b""[..], b"\xc3", b"\xe4\xb8", b"\xf0\x9f\x98", b"\xe0", b"\xed", b"\xf4"][sym::pick(7)].to_vec();
    any.push(b);
    any.extend_from_slice([&b""[..], b"\xa9", b"\xb8\xad"][sym::pick(3)]);
    string_of(any)
}
fn c_parse_string2() {
    let any = vec![sym::u8(), sym::u8()];
    sym::assume(any[0] != 0 && any[1] != 0);
    string_of(any)
}
fn string_of(any: Vec<u8>) {
    let mut s = b"decl @f() /".to_vec();
    s.truncate([0, 8, 10, 11][sym::pick(4)]);
    s.extend_from_slice(&any);
    // what the first call sets up may stay
    one_string(&s);
    let live = sym::live();
    one_string(&s);
    sym::check(sym::live() == live, "memory is not given back");
}

fn one_string(s: &[u8]) {
    unsafe {
        let z = nul(s);
        let mut got = MARK;
        let e = kc_parse_string(z.as_ptr() as *const c_char, &mut got);
        if utf8(s) {
            answer(e, got, s);
        } else {
            sym::check(e == 1, "a string that is not UTF-8 gets another code");
            sym::check(got == MARK, "the program is changed");
            sym::reach(1);
        }
    }
}

/// A text, valid or not.
fn some_text() -> Vec<u8> {
    let mut s = match sym::pick(5) {
        0 => vec![],
        1 => b"decl @f(".to_vec(),
        2 => b"// \xe4\xb8\xad\ndecl @f()".to_vec(),
        3 => b"\xff".to_vec(),
        _ => base_text(),
    };
    if sym::pick(2) == 1 {
        s.push(0x40);
    }
    s
}

/// The same text through every way in, however the system delivers it.
fn c_parse_all() {
    let s = some_text();
    let way = sym::pick(3);
    let (chunk, intr) = [(usize::MAX, false), (1, false), (7, true)][sym::pick(3)];
    let mut got = MARK;
    unsafe {
        let e = match way {
            0 => {
                let path = nul(vfs::put("in.koopa", &s).as_bytes());
                vfs::faults(chunk, intr, usize::MAX);
                kc_parse_file(path.as_ptr() as *const c_char, &mut got)
            }
            1 => {
                vfs::put("in.koopa", &s);
                let fd = vfs::open("in.koopa", false);
                vfs::faults(chunk, intr, usize::MAX);
                kc_parse_raw(fd, &mut got)
            }
            _ => {
                vfs::stdin(&s);
                vfs::faults(chunk, intr, usize::MAX);
                kc_parse_stdin(&mut got)
            }
        };
        vfs::no_faults();
        sym::check(way != 0 || vfs::open_files() == 0, "a file is left open");
        answer(e, got, &s);
    }
}

/// Files that cannot be had.
fn c_parse_none() {
    let mut got = MARK;
    unsafe {
        match sym::pick(5) {
            0 => {
                let path = nul(vfs::path("none.koopa").as_bytes());
                sym::check(kc_parse_file(path.as_ptr() as *const c_char, &mut got) == 2, "a missing file gets another code");
            }
            1 => {
                let mut path = vfs::path("").into_bytes();
                let b = sym::u8();
                sym::assume(b >= 0x80);
                path.extend([b, 0]);
                sym::check(kc_parse_file(path.as_ptr() as *const c_char, &mut got) == 1, "a path that is not UTF-8 gets another code");
            }
            2 => {
                // a directory can be opened, but not read
                let d = vfs::path("");
                let path = nul(d.trim_end_matches('/').as_bytes());
                sym::check(kc_parse_file(path.as_ptr() as *const c_char, &mut got) != 0, "a directory is read");
            }
            3 => {
                sym::check(kc_parse_raw(987, &mut got) != 0, "a descriptor that is not open is read");
            }
            _ => {
                // the file fails somewhere
                let s = base_text();
                let k = sym::pick(3) * (s.len() / 3);
                let path = nul(vfs::put("in.koopa", &s).as_bytes());
                vfs::faults(1, false, k);
                let e = kc_parse_file(path.as_ptr() as *const c_char, &mut got);
                vfs::no_faults();
                sym::check(e != 0, "a text that could not be read to the end is accepted");
                sym::check(vfs::open_files() == 0, "a file is left open");
                sym::reach(1);
            }
        }
    }
    sym::check(got == MARK, "the program is changed");
    sym::reach(0);
}

/// One of the ways out; the answer and what arrived.
fn dump(llvm: bool, p: &Program, way: usize, fault: &dyn Fn()) -> (i32, Vec<u8>) {
    unsafe {
        match way {
            0 | 1 => {
                // over a longer file, or a new one
                if way == 0 {
                    vfs::put("out.koopa", &[b'#'; 2000]);
                }
                let path = nul(vfs::path("out.koopa").as_bytes());
                fault();
                let e = kc_dump_file(llvm as i32, ptr(p), path.as_ptr() as *const c_char);
                vfs::no_faults();
                sym::check(vfs::open_files() == 0, "a file is left open");
                (e, vfs::get("out.koopa").unwrap())
            }
            2 => {
                let fd = vfs::open("out.koopa", true);
                fault();
                let e = kc_dump_raw(llvm as i32, ptr(p), fd);
                vfs::no_faults();
                (e, vfs::get("out.koopa").unwrap())
            }
            _ => {
                vfs::capture_out();
                fault();
                let e = kc_dump_stdout(llvm as i32, ptr(p));
                vfs::no_faults();
                (e, vfs::captured_out())
            }
        }
    }
}

/// The same text through every way out, however the system takes it.
fn c_dump_all() {
    let p = some();
    let llvm = sym::pick(2) == 1;
    let (chunk, intr) = [(usize::MAX, false), (1, false), (5, true)][sym::pick(3)];
    let (e, out) = dump(llvm, &p, sym::pick(4), &|| vfs::faults(chunk, intr, usize::MAX));
    sym::check(e == 0, "writing fails");
    sym::check(out == text_of(llvm, &p), "another text is written");
    sym::reach(0);
}

/// The disk is full after any number of bytes.
fn c_dump_full() {
    let src = ["global @g = alloc i32, 1\nfun @f(@a: i32): i32 {\n%e:\nbr @a, %t, %e2\n%t:\nret 1\n%e2:\nret 2\n}\n", "decl @f(i32)\n"];
    let p = parse(src[sym::pick(2)].as_bytes()).unwrap();
    let llvm = sym::pick(2) == 1;
    let want = text_of(llvm, &p);
    let left = sym::pick(want.len() + 1);
    let way = 1 + sym::pick(3);
    let (e, mut out) = dump(llvm, &p, way, &|| vfs::faults(usize::MAX, false, left));
    if way == 3 {
        // what is left in the buffer of the process may come later
        sym::check(out.len() >= left, "less is written than there is room for");
        out.truncate(left);
    }
    sym::check(out == want[..left], "something else is written before the disk is full");
    sym::check(e == if left == want.len() { 0 } else { 4 }, "success although not everything is written, or another code");
    sym::reach((left == want.len()) as u32);
}

/// Files that cannot be made.
fn c_dump_none() {
    let p = some();
    let llvm = sym::pick(2) as i32;
    unsafe {
        match sym::pick(4) {
            0 => {
                let path = nul(vfs::path("none/out").replace("/v/none", "/w/none").as_bytes());
                sym::check(kc_dump_file(llvm, ptr(&p), path.as_ptr() as *const c_char) == 2, "a file that cannot be made gets another code");
            }
            1 => {
                let mut path = vfs::path("").into_bytes();
                let b = sym::u8();
                sym::assume(b >= 0x80);
                path.extend([b, 0]);
                sym::check(kc_dump_file(llvm, ptr(&p), path.as_ptr() as *const c_char) == 1, "a path that is not UTF-8 gets another code");
            }
            2 => {
                let d = vfs::path("");
                let path = nul(d.trim_end_matches('/').as_bytes());
                sym::check(kc_dump_file(llvm, ptr(&p), path.as_ptr() as *const c_char) == 2, "a directory gets another code");
            }
            _ => {
                let e = kc_dump_raw(llvm, ptr(&p), 987);
                let empty = text_of(llvm == 1, &p).is_empty();
                sym::check(e == if empty { 0 } else { 4 }, "a descriptor that is not open gets another code");
            }
        }
    }
    sym::reach(0);
}

/// A writer with all that writers may do.
struct Sink {
    data: Vec<u8>,
    left: usize,
    chunk: usize,
    interrupt: bool,
    odd: bool,
    zero: bool,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.odd = !self.odd;
        if self.interrupt && self.odd {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if self.left == 0 {
            return if self.zero { Ok(0) } else { Err(Error::from(ErrorKind::Other)) };
        }
        let n = b.len().min(self.left).min(self.chunk);
        self.data.extend_from_slice(&b[..n]);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

/// A writer that fails anywhere, in any way.
fn gen_sink() {
    let p = if sym::pick(2) == 0 {
        parse(&b"decl @d(i32)\nglobal @g = alloc [i32, 2], {1, 2}\nfun @f(@a: i32): i32 {\n%e:\n%0 = call @f(@a)\nret %0\n}\n"[..]).unwrap()
    } else {
        whole().p
    };
    let llvm = sym::pick(2) == 1;
    let want = text_of(llvm, &p);
    let (chunk, interrupt) = [(usize::MAX, false), (1, true), (3, false)][sym::pick(3)];
    let left = if want.len() < 250 { sym::pick(want.len() + 1) } else { want.len() / 8 * sym::pick(9) + want.len() % 8 };
    let s = Sink { data: vec![], left, chunk, interrupt, odd: false, zero: sym::pick(2) == 1 };
    let (ok, s) = if llvm {
        let mut g = LlvmGenerator::new(s);
        (g.generate_on(&p).is_ok(), g.writer())
    } else {
        let mut g = KoopaGenerator::new(s);
        (g.generate_on(&p).is_ok(), g.writer())
    };
    sym::check(s.data == want[..left.min(want.len())], "something else is written before the writer fails");
    sym::check(ok == (left == want.len()), "success although not everything is written, or failure although it is");
    sym::reach(ok as u32);
}

fn again<V: koopa::back::Visitor<Sink> + Default>(llvm: bool) {
    let sink = |left| Sink { data: vec![], left, chunk: usize::MAX, interrupt: false, odd: false, zero: false };
    let p = some();
    let q = some();
    let (tp, tq) = (text_of(llvm, &p), text_of(llvm, &q));
    let drop_first = sym::pick(2) == 1;
    if sym::pick(2) == 0 {
        let mut g = koopa::back::Generator::<_, V>::new(sink(usize::MAX));
        sym::check(g.generate_on(&p).is_ok(), "writing fails");
        if drop_first {
            drop(p);
        }
        // the memory of the first program may be used again
        let q = if drop_first { rebuild(&q) } else { q };
        let tq = text_of(llvm, &q);
        sym::check(g.generate_on(&q).is_ok(), "writing fails");
        let out = g.writer().data;
        sym::check(out[..tp.len()] == tp[..], "the first program is another text");
        sym::check(out[tp.len()..] == tq[..], "the second program is another text");
        sym::reach(0);
    } else {
        // after a failure
        let left = (tp.len() / 6) * sym::pick(6);
        let mut g = koopa::back::Generator::<_, V>::new(sink(left));
        let ok = g.generate_on(&p).is_ok();
        sym::check(ok == tp.is_empty(), "success although not everything is written");
        let ok = g.generate_on(&q).is_ok();
        sym::check(ok == tq.is_empty(), "success although not everything is written");
        sym::reach(1);
    }
}

fn rebuild(p: &Program) -> Program {
    let t = koopa_text(p);
    let mut v = vec![];
    // where the old one was, as far as that is possible
    for _ in 0..3 {
        v.push(parse(&t[..]).unwrap());
    }
    v.swap_remove(sym::pick(3))
}

/// A generator that has been used before.
fn gen_again() {
    if sym::pick(2) == 0 {
        again::<koopa::back::koopa::Visitor>(false)
    } else {
        again::<koopa::back::llvm::Visitor>(true)
    }
}

const EDGES: [usize; 4] = [1024, 4096, 8192, 16384];

/// A program with a text of this length, of few or many lines.
fn filled(llvm: bool, many: bool, len: usize) -> Program {
    let mut p = Program::new();
    let name = |i: usize, n: usize| format!("@{}{}", (b'a' + i as u8 % 26) as char, "x".repeat(n + i / 26));
    let f = p.new_func_decl("@f".into(), vec![], Type::get_unit());
    let mut now = text_of(llvm, &p).len();
    if many {
        let mut i = 0;
        while now + 300 < len {
            p.new_func_decl(name(i, 40), vec![], Type::get_unit());
            i += 1;
            now = text_of(llvm, &p).len();
        }
    }
    p.func_mut(f).set_name(format!("@f{}", "y".repeat(len - now)));
    p
}

/// Texts that fill the usual buffers to the last byte, and one less or more.
fn c_big_out() {
    let edge = EDGES[sym::pick(4)];
    let len = edge - 1 + sym::pick(3);
    let llvm = sym::pick(2) == 1;
    // one long line, or many short ones; LLVM names have a limit
    let many = llvm || sym::pick(2) == 1;
    let p = filled(llvm, many, len);
    let want = text_of(llvm, &p);
    sym::check(want.len() == len, "the length of a text does not follow the length of a name");
    match sym::pick(2) {
        0 => {
            let (chunk, intr) = [(usize::MAX, false), (1000, true)][sym::pick(2)];
            let (e, out) = dump(llvm, &p, sym::pick(4), &|| vfs::faults(chunk, intr, usize::MAX));
            sym::check(e == 0, "writing fails");
            sym::check(out == want, "another text is written");
            sym::reach(0);
        }
        _ => {
            let left = [0, 1, 1023, 1024, 4096, 8191, 8192, 8193, len - 2, len - 1][sym::pick(10)];
            sym::assume(left < len);
            let way = 1 + sym::pick(3);
            let (e, mut out) = dump(llvm, &p, way, &|| vfs::faults(usize::MAX, false, left));
            sym::check(e == 4, "success although not everything is written, or another code");
            sym::check(out.len() >= left, "less is written than there is room for");
            out.truncate(left);
            sym::check(out == want[..left], "something else is written before the disk is full");
            sym::reach(1);
        }
    }
}

/// The same for strings.
fn c_big_string() {
    let edge = EDGES[sym::pick(4)];
    let len = edge - 1 + sym::pick(3);
    let llvm = sym::pick(2) == 1;
    let p = filled(llvm, llvm, len);
    let want = text_of(llvm, &p);
    unsafe {
        let mut n = 0;
        sym::check(kc_dump_string(llvm as i32, ptr(&p), std::ptr::null_mut(), &mut n) == 0, "asking for the length fails");
        sym::check(n == len && want.len() == len, "the length is another");
        let mut buf = vec![0xeeu8; len + 24];
        let room = [len - 1, len, len + 1, len + 2, usize::MAX][sym::pick(5)];
        let mut n = room;
        let e = kc_dump_string(llvm as i32, ptr(&p), buf.as_mut_ptr() as *mut c_char, &mut n);
        sym::check(n == room, "the length is changed");
        if room > len {
            sym::check(e == 0, "a buffer that is large enough is refused");
            sym::check(buf[..len] == want[..] && buf[len] == 0, "another text");
            sym::check(buf[len + 1..].iter().all(|b| *b == 0xee), "written past the end");
            sym::reach(0);
        } else {
            sym::check(e == 6, "a buffer that is too small gets another code");
            sym::check(buf.iter().all(|b| *b == 0xee), "written to a buffer that is too small");
            sym::reach(6);
        }
    }
}

/// Texts with something anywhere around the end of a buffer, through every way in.
fn c_big_in() {
    let edge = EDGES[sym::pick(4)];
    let at = edge - 5 + sym::pick(7);
    let (s, ok): (&[u8], bool) = [
        (&b"\ndecl @f(): i32\n"[..], true),
        (b"\xc3\xa9\ndecl @f(): i32\n", true),
        (b"\xf0\x9f\x98\x80\ndecl @f(): i32\n", true),
        (b"\xc3\ndecl @f(): i32\n", true),
        (b"\n", true),
        (b"", true),
        (b"\ndecl @f(", false),
        (b"\ndecl @g(): i32\ndecl @f(*i32): i32\n", true),
    ][sym::pick(8)];
    // a long comment or a long name before it
    let mut t = vec![];
    let named = sym::pick(2) == 1;
    if named {
        t.extend_from_slice(b"decl @");
        t.resize(at - 5, b'n');
        t.extend_from_slice(b"() //");
    } else {
        t.extend_from_slice(b"//");
        t.resize(at, b' ');
    }
    t.extend_from_slice(s);
    let (chunk, intr) = [(usize::MAX, false), (1000, true)][sym::pick(2)];
    let mut got = MARK;
    let way = sym::pick(4);
    let string = way == 3;
    unsafe {
        let e = match way {
            0 => {
                let path = nul(vfs::put("in.koopa", &t).as_bytes());
                vfs::faults(chunk, intr, usize::MAX);
                kc_parse_file(path.as_ptr() as *const c_char, &mut got)
            }
            1 => {
                vfs::put("in.koopa", &t);
                let fd = vfs::open("in.koopa", false);
                vfs::faults(chunk, intr, usize::MAX);
                kc_parse_raw(fd, &mut got)
            }
            2 => {
                vfs::stdin(&t);
                vfs::faults(chunk, intr, usize::MAX);
                kc_parse_stdin(&mut got)
            }
            _ => {
                let z = nul(&t);
                kc_parse_string(z.as_ptr() as *const c_char, &mut got)
            }
        };
        vfs::no_faults();
        if string && !utf8(s) {
            sym::check(e == 1, "a string that is not UTF-8 gets another code");
            sym::check(got == MARK, "the program is changed");
            return;
        }
        if !ok {
            sym::check(e == 3, "an invalid text gets another code");
            sym::check(got == MARK, "the program is changed");
            sym::reach(3);
            return;
        }
        sym::check(e == 0, "a valid text is refused");
        let p = &*(got as *const Program);
        // the names, from the text
        let mut want: Vec<Vec<u8>> = vec![];
        for (i, _) in t.iter().enumerate().filter(|(_, c)| **c == b'@') {
            let n = t[i..].iter().position(|c| *c == b'(').unwrap();
            want.push(t[i..i + n].to_vec());
        }
        let have: Vec<Vec<u8>> = p.func_layout().iter().map(|f| p.func(*f).name().as_bytes().to_vec()).collect();
        sym::check(have == want, "the program has other functions than the text");
        check_uses(p);
        kc_delete(got);
        sym::reach(0);
    }
}

/// A visitor of the user's own.
struct Own {
    runs: usize,
    /// what the next runs do: how far they go before they fail
    plan: Vec<usize>,
    answer: u32,
}

impl koopa::back::Visitor<Sink> for Own {
    type Output = (u32, usize);

    fn visit(&mut self, w: &mut Sink, nm: &mut koopa::back::NameManager, p: &Program) -> Result<(u32, usize)> {
        let stop = self.plan[self.runs];
        self.runs += 1;
        let fail = |n: usize| if n == stop { Err(Error::from(ErrorKind::Other)) } else { Ok(()) };
        fail(1)?;
        for g in p.inst_layout() {
            sym::check(*nm.value_name(&p.borrow_value(*g)) == "@g", "a name is changed although nothing else has it");
        }
        for f in p.func_layout() {
            let d = p.func(*f);
            let n = nm.func_name(d);
            sym::check(*n == "@f", "a name is changed although nothing else has it");
            w.write_all(n.as_bytes())?;
            nm.enter_func_scope();
            for (b, _) in d.layout().bbs() {
                let n = nm.bb_name(d.dfg().bb(*b));
                sym::check(*n == "%e", "a name is changed although nothing else has it");
            }
            sym::check(*nm.temp_value_name() == "%0", "a temporary name is not the first one");
            fail(2)?;
            nm.exit_func_scope();
        }
        if stop == 3 {
            // for the next run this is forgotten
            nm.set_prefix(koopa::back::Prefix::Custom { named: "v".into(), temp: "t".into(), max_len: None });
        }
        Ok((self.answer ^ self.runs as u32, p.funcs().len()))
    }
}

/// A generator with a visitor of the user's own, used several times.
fn gen_visitor() {
    let prog = |t: &[u8]| parse(t).unwrap();
    let ps = [
        prog(b"global @g = alloc i32, 1\nfun @f() {\n%e:\nret\n}\n"),
        prog(b"global @g = alloc i32, 1\n"),
        prog(b"fun @f() {\n%e:\nret\n}\n"),
    ];
    let n = 4;
    let plan: Vec<usize> = (0..n).map(|_| sym::pick(4)).collect();
    let answer = sym::u32();
    let left = if sym::pick(2) == 1 { usize::MAX } else { sym::pick(7) };
    let sink = Sink { data: vec![], left, chunk: 1, interrupt: false, odd: false, zero: false };
    let mut g = koopa::back::Generator::with_visitor(sink, Own { runs: 0, plan: plan.clone(), answer });
    let (mut room, mut want) = (left, vec![]);
    for i in 0..n {
        let k = if i < 2 { sym::pick(3) } else { (i + 1) % 3 };
        let r = g.generate_on(&ps[k]);
        let mut ok = plan[i] != 1;
        if ok && k != 1 {
            ok = room >= 2 && plan[i] != 2;
            let m = room.min(2);
            want.extend_from_slice(&b"@f"[..m]);
            room -= m;
        }
        sym::check(r.is_ok() == ok, "a generator does not tell whether its visitor failed");
        if let Ok((a, l)) = r {
            sym::check(a == answer ^ (i as u32 + 1), "a generator gives another answer than its visitor");
            sym::check(l == (k != 1) as usize, "a visitor gets another program");
        }
        sym::reach(ok as u32);
    }
    sym::check(g.writer().data == want, "something else is written than the visitor wrote");
}

crate::harnesses! {
    c_big_out c_big_string c_big_in
    c_string c_null c_parse_string c_parse_string2 c_parse_all c_parse_none c_dump_all c_dump_full c_dump_none gen_sink gen_again gen_visitor
}
