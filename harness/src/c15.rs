//! What is reported about a text: how many errors and warnings, and where.
use crate::c02::{parse, BASE};
use crate::sym;
use crate::vfs;
use koopa::front::driver::Driver;
use koopa::front::span::{FileType, Pos, Span};
use koopa::{log_error, log_fatal_error, log_raw_error, log_raw_fatal_error, log_raw_warning, log_warning};
use std::path::PathBuf;

/// A line as it is shown: tabs take two columns.
fn shown(l: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for c in l {
        if *c == b'\t' {
            v.extend_from_slice(b"  ");
        } else {
            v.push(*c);
        }
    }
    v
}

fn lines(s: &[u8]) -> Vec<&[u8]> {
    s.split(|c| *c == b'\n').collect()
}

/// In `out`, the line `src` is shown and the column `from..=to` of it marked.
fn marked(out: &[&[u8]], src: &[u8], from: usize, to: usize) -> bool {
    for i in 0..out.len() - 1 {
        if !out[i].ends_with(src) {
            continue;
        }
        let o = out[i].len() - src.len();
        let m = out[i + 1];
        if m.len() == o + to && (0..m.len()).all(|k| (m[k] == b'^') == (k + 1 >= o + from)) {
            return true;
        }
    }
    false
}

/// The report about the characters `from..to` of the file.
fn check_report(data: &[u8], from: usize, to: usize, warning: bool) {
    let path = vfs::put("s.koopa", data);
    let pos = |n: usize| {
        let mut p = Pos::new();
        for c in &data[..n] {
            p.update(*c as char);
        }
        p
    };
    Span::reset(FileType::File(PathBuf::from(&path)));
    let s = Span::new(pos(from)).into_updated(pos(to));
    vfs::capture();
    if warning {
        log_warning!(s, "message {}", 1);
    } else {
        let e = log_error!(s, "message {}", 1);
        sym::check(!e.is_fatal(), "an error is taken for fatal");
    }
    let out = vfs::captured();
    sym::check(Span::error_num() == !warning as usize, "the number of errors is wrong");
    sym::check(Span::warning_num() == warning as usize, "the number of warnings is wrong");
    sym::check(vfs::open_files() == 0, "a file is left open");
    let out = lines(&out);
    let head: &[u8] = if warning { b"warning: message 1" } else { b"error: message 1" };
    sym::check(out.len() >= 2 && out[0] == head, "the message is not shown");
    // lines and columns of what is marked
    let place = |n: usize| {
        let (mut l, mut c) = (1, 0);
        for x in &data[..n] {
            if *x == b'\n' {
                l += 1;
                c = 0;
            } else {
                c += 1;
            }
        }
        (l, c)
    };
    let ((l1, c1), (l2, c2)) = (place(from), place(to));
    let at = format!("{}:{}:{}", path, l1, c1);
    sym::check(out[1].ends_with(at.as_bytes()), "the place is not shown");
    if c1 == 0 || c2 == 0 || data.iter().any(|c| *c >= 128) {
        sym::reach(1);
        return;
    }
    let src = lines(data);
    let line = |l: usize| {
        let s = src[l - 1];
        if s.ends_with(b"\r") { &s[..s.len() - 1] } else { s }
    };
    let col = |l: usize, c: usize| shown(&line(l)[..c.min(line(l).len())]).len();
    let (s1, s2) = (shown(line(l1)), shown(line(l2)));
    let (k1, k2) = (col(l1, c1), col(l2, c2));
    if k1 == 0 || k2 == 0 {
        return;
    }
    if l1 == l2 {
        let first = k1.min(k2);
        sym::check(marked(&out[2..], &s1, first, k2), "the part of the line is not marked");
        sym::reach(2);
    } else {
        sym::check(marked(&out[2..], &s1, k1, k1), "the start is not marked");
        sym::check(marked(&out[2..], &s2, k2, k2), "the end is not marked");
        for l in l1 + 1..l2 {
            if l2 - l1 <= 5 || l < l1 + 3 || l == l2 - 1 {
                let s = shown(line(l));
                sym::check(out[2..].iter().any(|o| o.ends_with(&s)), "a line is not shown");
            }
        }
        sym::reach(3);
    }
}

fn report(n: usize) {
    let data: Vec<u8> = (0..n).map(|_| sym::u8()).collect();
    let from = sym::pick(n + 1);
    let to = from + sym::pick(n + 1 - from);
    check_report(&data, from, to, sym::pick(2) == 1);
}
fn report_bytes() {
    report(sym::pick(3))
}
fn report_bytes3() {
    report(3)
}

/// Longer files, with few sorts of bytes.
fn report_lines() {
    let mut data = vec![];
    let n = 9 + sym::pick(4);
    for i in 0..n {
        data.extend_from_slice(&[b'a' + i as u8, b'\t', b'z']);
        data.extend_from_slice(if i % 3 == 1 { b"\r\n" } else { b"\n" });
    }
    let starts: Vec<usize> = (0..n).map(|i| data.iter().position(|c| *c == b'a' + i as u8).unwrap()).collect();
    let a = starts[sym::pick(n)] + 1 + sym::pick(3);
    let b = starts[sym::pick(n)] + 1 + sym::pick(4);
    sym::assume(a <= b);
    check_report(&data, a, b, false);
}

/// The counts are those of the reports since the last reset.
fn report_counts() {
    let n = sym::pick(6);
    let (mut e, mut w) = (0, 0);
    Span::reset(FileType::Buffer);
    let mut pos = Pos::new();
    pos.update('a');
    let s = Span::new(pos);
    for _ in 0..n {
        match sym::pick(7) {
            0 => {
                sym::check(!log_error!(s, "m").is_fatal(), "a normal error is fatal");
                e += 1;
            }
            1 => {
                sym::check(log_fatal_error!(s, "m").is_fatal(), "a fatal error is not fatal");
                e += 1;
            }
            2 => {
                sym::check(!log_raw_error!("m").is_fatal(), "a normal error is fatal");
                e += 1;
            }
            3 => {
                sym::check(log_raw_fatal_error!("m").is_fatal(), "a fatal error is not fatal");
                e += 1;
            }
            4 => {
                log_warning!(s, "m");
                w += 1;
            }
            5 => {
                log_raw_warning!("m");
                w += 1;
            }
            _ => {
                Span::reset(FileType::Stdin);
                e = 0;
                w = 0;
            }
        }
        sym::check(Span::error_num() == e, "the number of errors is wrong");
        sym::check(Span::warning_num() == w, "the number of warnings is wrong");
    }
    vfs::capture();
    Span::log_global();
    let out = vfs::captured();
    let es = if e == 1 { "1 error".to_string() } else { format!("{} errors", e) };
    let ws = if w == 1 { "1 warning".to_string() } else { format!("{} warnings", w) };
    if e > 0 || w > 0 {
        let want = if w == 0 {
            format!("{} emitted\n", es)
        } else if e == 0 {
            format!("{} emitted\n", ws)
        } else {
            format!("{} and {} emitted\n", es, ws)
        };
        sym::check(out == want.as_bytes(), "the summary is wrong");
        sym::reach(0);
    }
}

/// Every mistake is reported; more than twenty end the run.
fn report_many() {
    let n = sym::pick(26);
    let bad = ["decl @f()\n", "global @f = alloc i32, {1}\n", "fun @f() {\n%e:\nret 1\n}\n", "decl (\n"];
    let b = bad[sym::pick(4)];
    let mut s = b"decl @f()\n".to_vec();
    for _ in 0..n {
        s.extend_from_slice(b.as_bytes());
    }
    let each = if b.starts_with("fun") { 2 } else { 1 };
    vfs::capture();
    let p = parse(&s[..]);
    let out = vfs::captured();
    let e = Span::error_num();
    sym::check(p.is_some() == (n == 0), "accepted although there are mistakes, or rejected although there are none");
    let told = lines(&out).iter().filter(|l| l.starts_with(b"error: ")).count();
    sym::check(told == e, "the number of errors is not the number of errors shown");
    if n * each <= 20 {
        sym::check(e == n * each, "not every mistake is reported");
        sym::reach(0);
    } else {
        sym::check(e > 20 && e <= 24, "there is no end of errors");
        sym::reach(1);
    }
}

const TEXTS: [&str; 6] = [
    "decl @f()\n",
    "",
    "#",
    "decl @f() decl @f()\n",
    "fun @f() {\n%e:\nret\n%u:\nret\n}\n",
    "fun @f() {\n%e:\nret 1\n}\nglobal @g = ",
];

/// What a driver answers does not depend on what else has been going on.
fn report_apart() {
    let (a, b) = (TEXTS[sym::pick(6)], TEXTS[sym::pick(6)]);
    let own = |s: &str| {
        let d: Driver<_> = s.into();
        let p = d.generate_program();
        (p.is_ok(), Span::error_num(), Span::warning_num())
    };
    let (wa, wb) = (own(a), own(b));
    sym::check(wa.0 == (wa.1 == 0), "the number of errors does not fit the result");
    let da: Driver<_> = a.into();
    let db: Driver<_> = b.into();
    let mut run = |d: Driver<std::io::Cursor<&str>>, w: (bool, usize, usize)| {
        let p = d.generate_program();
        sym::check(p.is_ok() == w.0, "the result depends on another driver");
        sym::check(Span::error_num() == w.1, "the number of errors depends on another driver");
        sym::check(Span::warning_num() == w.2, "the number of warnings depends on another driver");
    };
    if sym::pick(2) == 0 {
        run(da, wa);
        run(db, wb);
    } else {
        run(db, wb);
        run(da, wa);
    }
    sym::reach(0);
}

/// A file and a buffer with the same text get the same answer.
fn file_as_buffer(text: &[u8]) {
    let path = vfs::put("f.koopa", text);
    vfs::capture();
    let d = Driver::from_path(&path);
    sym::check(d.is_ok(), "a file cannot be opened");
    let p = d.ok().unwrap().generate_program();
    let out = vfs::captured();
    let (e, w) = (Span::error_num(), Span::warning_num());
    sym::check(vfs::open_files() == 0, "a file is left open");
    let q = parse(text);
    sym::check(p.is_ok() == q.is_some(), "a file and a buffer get different answers");
    sym::check((e, w) == (Span::error_num(), Span::warning_num()), "a file and a buffer get different reports");
    let out = lines(&out);
    let told = out.iter().filter(|l| l.starts_with(b"error: ")).count();
    sym::check(told == e, "the number of errors is not the number of errors shown");
    // every place is one in the file
    let src = lines(text);
    let at = format!("{}:", path);
    for l in out.iter().filter(|l| l.starts_with(b"  at ")) {
        let l = &l[5..];
        sym::check(l.starts_with(at.as_bytes()), "a report names another file");
        let t = std::str::from_utf8(&l[at.len()..]).unwrap();
        let (x, y) = t.split_once(':').unwrap();
        let (x, y): (usize, usize) = (x.parse().unwrap(), y.parse().unwrap());
        sym::check(x >= 1 && x <= src.len() && y <= src[x - 1].len(), "a report names a place that is not in the file");
    }
    sym::reach(p.is_err() as u32);
}

fn file_bytes() {
    any_file(sym::pick(3))
}
fn file_bytes3() {
    any_file(3)
}
fn any_file(n: usize) {
    let data: Vec<u8> = (0..n).map(|_| sym::u8()).collect();
    file_as_buffer(&data);
}

/// The sample text with a token replaced by bytes that are unusual in files.
fn file_edit() {
    let odd: [&[u8]; 9] = [b"\r\n", b"\t\t#", b"/\r\n", b"// \xe4\xb8\xad\n", b"/*\n\n\n\n\n\n\n\n*", b"\xff", b"%a\x80", b"/* \xc3\xa9 */ 1", b""];
    let at = sym::pick(BASE.len());
    let w = odd[sym::pick(odd.len())];
    let mut v = vec![];
    for (i, t) in BASE.iter().enumerate() {
        v.extend_from_slice(if i == at { w } else { t.as_bytes() });
        v.push(if i % 7 == 3 { b'\t' } else { b' ' });
    }
    file_as_buffer(&v);
}

/// A file that is not there.
fn file_none() {
    sym::check(Driver::from_path(vfs::path("none")).is_err(), "a file that does not exist is opened");
    // one that vanishes while it is read
    let path = vfs::put("g.koopa", b"#\n");
    let d = Driver::from_path(&path).ok().unwrap();
    vfs::remove("g.koopa");
    sym::check(d.generate_program().is_err(), "accepted");
    sym::reach(0);
}

/// Files of hundreds of lines, no two alike, and reports over any number of
/// them; the rows that are shown bear the numbers of their lines.
fn report_long() {
    let n = [13, 30, 99, 101, 257, 300][sym::pick(6)];
    let mut data = vec![];
    let mut starts = vec![];
    for i in 0..n {
        starts.push(data.len());
        data.extend_from_slice(format!("x{}x", i).as_bytes());
        data.push(b'\n');
    }
    let l1 = [0, 1, 7, 8, 9, 10, 97, 98, 99, 100, 254, 255, 256][sym::pick(13)];
    let more = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 18, 19, 20, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 200, 255, 256][sym::pick(30)];
    sym::assume(l1 + more < n);
    let l2 = l1 + more;
    let (a, b) = (starts[l1] + 2, starts[l2] + 2 + sym::pick(2));
    let w = sym::pick(2) == 1;
    check_report(&data, a, b, w);
    Span::reset(FileType::File(PathBuf::from(&vfs::path("s.koopa"))));
    let pos = |n: usize| {
        let mut p = Pos::new();
        for c in &data[..n] {
            p.update(*c as char);
        }
        p
    };
    vfs::capture();
    log_error!(Span::new(pos(a)).into_updated(pos(b)), "m");
    let out = vfs::captured();
    let mut seen = 0;
    for o in lines(&out).iter().skip(2) {
        let t = std::str::from_utf8(o).unwrap();
        // the number before the first bar
        let Some((num, _)) = t.split_once('|') else { continue };
        let Ok(num) = num.trim().parse::<usize>() else { continue };
        sym::check(num >= l1 + 1 && num <= l2 + 1, "a row bears the number of a line that has no part in this");
        sym::check(o.ends_with(format!("x{}x", num - 1).as_bytes()), "a row bears the number of another line");
        seen += 1;
    }
    sym::check(seen >= 1 && (more == 0 || seen >= 2), "rows without a number");
    sym::reach(10);
}

/// Wide lines.
fn report_wide() {
    let n = [8, 79, 80, 81, 127, 128, 129, 255, 256, 257, 300][sym::pick(11)];
    let tabs = sym::pick(3);
    let mut data = vec![];
    for l in 0..2 {
        for i in 0..n {
            let tab = match tabs {
                0 => false,
                1 => i < 5,
                _ => i % 16 == 3,
            };
            data.push(if tab { b'\t' } else { b'a' + ((i + l) % 26) as u8 });
        }
        data.push(b'\n');
    }
    let at = [0, 1, 3, 4, 7, 70, 78, 79, 80, 126, 127, 128, 200, 254, 255, 256, 299];
    let c1 = at[sym::pick(17)];
    let c2 = at[sym::pick(17)];
    sym::assume(c1 < n && c2 < n);
    let next = sym::pick(2) * (n + 1);
    sym::assume(next > 0 || c1 <= c2);
    check_report(&data, c1 + 1, next + c2 + 1, false);
}

crate::harnesses! {
    report_long report_wide
    report_bytes report_bytes3 report_lines report_counts report_many report_apart file_bytes file_bytes3 file_edit file_none
}
