//! C20: the same input gives the same output.
use crate::c02::{self, base_text, Byte, Edited, BASE};
use crate::c14;
use crate::fam::{self, Prog};
use crate::{sym, vfs};
use koopa::back::{KoopaGenerator, LlvmGenerator};
use koopa::front::span::{FileType, Span};
use koopa::front::Driver;
use koopa::ir::*;
use std::collections::hash_map::RandomState;
use std::io::Read;

/// Hash tables made from here on are ordered in another way.
fn salt(n: usize) {
    for _ in 0..n {
        let _ = RandomState::new();
    }
}

/// All that one gets for a text.
struct Out {
    told: Vec<u8>,
    errors: usize,
    warnings: usize,
    fatal: bool,
    p: Option<Program>,
}

fn run(s: &[u8], file: bool) -> Out {
    vfs::capture();
    let r = if file {
        let path = vfs::put("t.koopa", s);
        Driver::from_path(path).ok().unwrap().generate_program()
    } else {
        Driver::new(FileType::Buffer, s).generate_program()
    };
    let told = vfs::captured();
    let (errors, warnings) = (Span::error_num(), Span::warning_num());
    match r {
        Ok(p) => Out { told, errors, warnings, fatal: false, p: Some(p) },
        Err(e) => Out { told, errors, warnings, fatal: e.is_fatal(), p: None },
    }
}

fn alike(a: &Out, b: &Out) {
    sym::check(a.p.is_some() == b.p.is_some(), "the same text is accepted and refused");
    sym::check((a.errors, a.warnings, a.fatal) == (b.errors, b.warnings, b.fatal), "the same text has other numbers of errors");
    sym::check(a.told == b.told, "the reports of the same text differ");
    if let (Some(p), Some(q)) = (&a.p, &b.p) {
        sym::check(texts(p) == texts(q), "the programs of the same text are written differently");
    }
}

/// What both generators write.
fn texts(p: &Program) -> (Vec<u8>, Vec<u8>) {
    (c02::koopa_text(p), c02::llvm_text(p))
}

/// The text is read twice.
fn twice(s: &[u8], file: bool, orders: usize) {
    let a = run(s, file);
    salt(sym::pick(orders));
    let b = run(s, file);
    alike(&a, &b);
    sym::reach(if a.p.is_some() { 0 } else { 1 });
    if a.warnings > 1 {
        sym::reach(2);
    }
}

fn all<R: Read>(mut r: R) -> Vec<u8> {
    let mut v = vec![];
    r.read_to_end(&mut v).unwrap();
    v
}

static mut INSTEAD: bool = false;

/// The families of C14 make texts for this property.
pub fn instead() -> bool {
    unsafe { INSTEAD }
}
pub fn same<R: Read>(r: R) {
    twice(&all(r), false, 1);
}

fn same_edit() {
    twice(&all(Edited::new(0, BASE.len(), 1)), false, 2);
}

fn same_byte() {
    twice(&all(Byte::new(true)), false, 2);
}

fn same_front() {
    unsafe { INSTEAD = true };
    match sym::pick(10) {
        0 => c14::front_big(),
        1 => c14::front_init(),
        2 => c14::front_args(),
        3 => c14::front_stmts(),
        4 => c14::front_gaps(),
        5 => c14::front_items(),
        6 => c14::front_toks(),
        7 => c14::front_names(),
        8 => c14::front_two(),
        _ => c14::front_flow(),
    }
}

/// Many blocks, names or items, with the same mistake in many of them.
fn same_many() {
    let n = [2, 3, 4, 5, 9, 17][sym::pick(6)];
    let kind = sym::pick(9);
    let file = sym::pick(2) == 1;
    let mut s = String::new();
    let step = [1, 3, 7, 11][sym::pick(4)];
    // some order of the numbers below n
    let nth = |i: usize| i * step % n;
    match kind {
        0..=4 => {
            s += "fun @f(%p: i32) {\n%e:\n";
            s += match kind {
                0 => "ret\n",
                1 => "jump %b0\n",
                2 => "jump %no\n",
                3 => "br %p, %b0, %b1\n",
                _ => "%x = add %x, 1\njump %e\n",
            };
            for i in 0..n {
                let k = nth(i);
                s += &match kind {
                    0 | 2 => format!("%b{}:\nret\n", k),
                    1 => format!("%b{}:\n%v{} = add %w{}, {}\nret\n", k, k, k, k),
                    3 => format!("%b{}:\nbr %p, %b{}, %c{}\n", k, (k + 2) % n, k),
                    _ => format!("%b{}(%x: i32):\njump %b{}\n", k, k),
                };
            }
            s += "}\n";
        }
        5 => {
            for i in 0..n {
                s += &format!("decl @f{}()\nglobal @f{} = alloc i32, 1\n", nth(i), nth(i));
            }
        }
        6 => {
            s += "fun @f(";
            for i in 0..n {
                s += &format!("{}%a{}: i32", if i == 0 { "" } else { ", " }, nth(i) / 2);
            }
            s += ") {\n%e:\nret\n}\n";
        }
        7 => {
            for i in 0..n {
                s += &format!("global %{} = alloc i32, {}\ndecl %f{}(): i32\n", nth(i), i, nth(i));
            }
            for i in 0..n {
                s += &format!("fun @g{}() {{\n%1:\n%x = call %f{}()\n%0 = load %{}\njump %0(%x)\n%0(%y: i32):\nret\n}}\n", nth(i), nth(i), nth(i));
            }
        }
        _ => {
            s += "fun @f() {\n%e:\n";
            for i in 0..n {
                s += &format!("%y{} = load %z{}\n", nth(i), nth(i));
            }
            s += "jump %b(";
            for i in 0..n {
                s += &format!("{}%y{}", if i == 0 { "" } else { ", " }, nth(i));
            }
            s += ")\n%b:\nret\n}\n";
        }
    }
    twice(s.as_bytes(), file, 8);
}

/// Whatever happened before.
fn same_after() {
    let list = [
        base_text(),
        b"decl @f() decl @f() #".to_vec(),
        b"/* ".to_vec(),
        b"fun @f() {\n%e:\nret 1\n%b:\nret\n%c:\nret\n}\nfun @f() {\n%e:\nret\n}\n".to_vec(),
        b"global @x = alloc [i32, 3], {1, 2, 3}\nfun %0(%0: i32, @x_0: i32) {\n%0:\nret\n}\n".to_vec(),
        b"\xff\n".to_vec(),
        vec![],
    ];
    let (i, file) = (sym::pick(7), sym::pick(2) == 1);
    let a = run(&list[i], file);
    for _ in 0..2 {
        match sym::pick(4) {
            0 => {
                // some other text
                run(&list[sym::pick(7)], sym::pick(2) == 1);
            }
            1 => {
                // other programs, types and names
                let x = fam::call(true);
                texts(&x.p);
            }
            2 => {
                if let Some(p) = &a.p {
                    texts(p);
                }
            }
            _ => {
                vfs::capture();
                Span::log_raw_error(format_args!("x"));
                vfs::captured();
            }
        }
    }
    let b = run(&list[i], file);
    alike(&a, &b);
    sym::reach(if a.p.is_some() { 0 } else { 1 });
}

/// The same program is written in the same way by every generator.
fn written(x: Prog) {
    let mut k = KoopaGenerator::new(Vec::new());
    let mut l = LlvmGenerator::new(Vec::new());
    let (a, b) = texts(&x.p);
    salt(1);
    for _ in 0..2 {
        sym::check(k.generate_on(&x.p).is_ok(), "writing to memory failed");
        sym::check(l.generate_on(&x.p).is_ok(), "writing to memory failed");
    }
    let (c, d) = (k.writer(), l.writer());
    sym::check(c.len() == 2 * a.len() && c[..a.len()] == a[..] && c[a.len()..] == a[..], "a generator writes a program in two ways");
    sym::check(d.len() == 2 * b.len() && d[..b.len()] == b[..] && d[b.len()..] == b[..], "a generator writes a program in two ways (LLVM)");
    // and its text is read as programs that are written in the same way
    match (c02::parse(&a[..]), c02::parse(&a[..])) {
        (Some(p), Some(q)) => sym::check(texts(&p) == texts(&q), "the programs of the same text are written differently"),
        (None, None) => (),
        _ => sym::check(false, "the same text is accepted and refused"),
    }
    sym::observe_bytes(&a);
    sym::observe_bytes(&b);
    sym::reach(0);
}

fn same_text() {
    written(match sym::pick(8) {
        0 => fam::arith(true),
        1 => fam::mem(true),
        2 => fam::flow(true),
        3 => fam::call(true),
        4 => fam::names(true, false),
        5 => fam::types(true, 1),
        6 => fam::many(true),
        _ => fam::aggs(true),
    })
}
fn same_ops() {
    written(fam::ops(true, false))
}

crate::harnesses! {
    same_edit same_byte same_front same_many same_after same_text same_ops
}
