//! The lexer splits text as the language says.
use crate::c02::VOCAB;
use crate::sym;
use crate::util::OPS;
use koopa::front::lexer::Lexer;
use koopa::front::token::{Keyword, TokenKind};

const KEYWORDS: [(&str, Keyword); 15] = [
    ("i32", Keyword::I32),
    ("undef", Keyword::Undef),
    ("zeroinit", Keyword::ZeroInit),
    ("global", Keyword::Global),
    ("alloc", Keyword::Alloc),
    ("load", Keyword::Load),
    ("store", Keyword::Store),
    ("getptr", Keyword::GetPtr),
    ("getelemptr", Keyword::GetElemPtr),
    ("br", Keyword::Br),
    ("jump", Keyword::Jump),
    ("call", Keyword::Call),
    ("ret", Keyword::Ret),
    ("fun", Keyword::Fun),
    ("decl", Keyword::Decl),
];

const OP_NAMES: [&str; 17] = [
    "ne", "eq", "gt", "lt", "ge", "le", "add", "sub", "mul", "div", "mod", "and", "or", "xor", "shl", "shr", "sar",
];

/// What the next token has to be.
pub enum Want {
    Int(i64),
    /// From here to there.
    Symbol(usize, usize),
    Keyword(usize),
    Op(usize),
    Other(u8),
    Bad,
    End,
}

fn alpha(c: u8) -> bool {
    (c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z')
}
fn digit(c: u8) -> bool {
    c >= b'0' && c <= b'9'
}
fn space(c: u8) -> bool {
    c == b' ' || (c >= 9 && c <= 13)
}

/// Reads the token at `at`: what it is, where it starts and where it ends.
pub fn want(s: &[u8], mut at: usize) -> (Want, usize, usize) {
    let n = s.len();
    loop {
        while at < n && space(s[at]) {
            at += 1;
        }
        if at == n {
            return (Want::End, at, at);
        }
        if s[at] != b'/' {
            break;
        }
        if at + 1 < n && s[at + 1] == b'/' {
            at += 2;
            while at < n && s[at] != b'\n' && s[at] != b'\r' {
                at += 1;
            }
        } else if at + 1 < n && s[at + 1] == b'*' {
            let mut i = at + 2;
            loop {
                if i + 1 >= n {
                    return (Want::Bad, at, n);
                }
                if s[i] == b'*' && s[i + 1] == b'/' {
                    break;
                }
                i += 1;
            }
            at = i + 2;
        } else {
            return (Want::Bad, at, at);
        }
    }
    let a = at;
    let c = s[a];
    at += 1;
    if c == b'@' || c == b'%' {
        if at < n && digit(s[at]) {
            if c == b'@' {
                return (Want::Bad, a, at);
            }
            // %0, or a number that does not start with 0
            let zero = s[at] == b'0';
            at += 1;
            while !zero && at < n && digit(s[at]) {
                at += 1;
            }
        } else {
            while at < n && (alpha(s[at]) || digit(s[at]) || s[at] == b'_') {
                at += 1;
            }
            if at == a + 1 {
                return (Want::Bad, a, at);
            }
        }
        return (Want::Symbol(a, at), a, at);
    }
    if alpha(c) {
        while at < n && (alpha(s[at]) || digit(s[at])) {
            at += 1;
        }
        let w = &s[a..at];
        for (i, k) in KEYWORDS.iter().enumerate() {
            if k.0.as_bytes() == w {
                return (Want::Keyword(i), a, at);
            }
        }
        for (i, k) in OP_NAMES.iter().enumerate() {
            if k.as_bytes() == w {
                return (Want::Op(i), a, at);
            }
        }
        return (Want::Bad, a, at);
    }
    if digit(c) || c == b'-' {
        while at < n && digit(s[at]) {
            at += 1;
        }
        let d = if c == b'-' { &s[a + 1..at] } else { &s[a..at] };
        if d.is_empty() {
            return (Want::Bad, a, at);
        }
        // grows downwards, where there is room for i64::MIN
        let mut v: i64 = 0;
        for x in d {
            let x = (*x - b'0') as i64;
            let lim = i64::MIN / 10;
            if v < lim || (v == lim && x > 8) {
                return (Want::Bad, a, at);
            }
            v = v * 10 - x;
        }
        if c != b'-' {
            if v == i64::MIN {
                return (Want::Bad, a, at);
            }
            v = -v;
        }
        return (Want::Int(v), a, at);
    }
    (Want::Other(c), a, at)
}

/// Line and column of a byte.
fn place(s: &[u8], at: usize) -> (usize, usize) {
    let (mut l, mut c) = (1, 1);
    for x in &s[..at] {
        if *x == b'\n' {
            l += 1;
            c = 1;
        } else {
            c += 1;
        }
    }
    (l, c)
}

fn check_lex(s: &[u8]) {
    check_lex_from(s, s)
}

/// Delivers a text in pieces.
struct Pieces<'a> {
    s: &'a [u8],
    n: usize,
}

impl std::io::Read for Pieces<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let n = self.n.min(out.len()).min(self.s.len());
        out[..n].copy_from_slice(&self.s[..n]);
        self.s = &self.s[n..];
        Ok(n)
    }
}

fn check_lex_from<R: std::io::Read>(s: &[u8], r: R) {
    let mut lex = Lexer::new(r);
    let mut at = 0;
    loop {
        let (w, from, to) = want(s, at);
        let t = match lex.next_token() {
            Ok(t) => t,
            Err(_) => {
                sym::check(matches!(w, Want::Bad), "the lexer refuses a token that is in order");
                sym::reach(1);
                return;
            }
        };
        let ok = match (&w, &t.kind) {
            (Want::Int(a), TokenKind::Int(b)) => a == b,
            (Want::Symbol(a, b), TokenKind::Symbol(x)) => x.as_bytes() == &s[*a..*b],
            (Want::Keyword(i), TokenKind::Keyword(k)) => KEYWORDS[*i].1 == *k,
            (Want::Op(i), TokenKind::BinaryOp(k)) => OPS[*i] == *k,
            (Want::Other(c), TokenKind::Other(k)) => *c as char == *k,
            (Want::End, TokenKind::End) => {
                sym::reach(0);
                return;
            }
            _ => false,
        };
        if matches!(w, Want::Bad) {
            sym::check(false, "the lexer accepts a token that is not in order");
        }
        sym::check(ok, "the lexer returns another token");
        let (l1, c1) = place(s, from);
        let (l2, c2) = place(s, to - 1);
        // a newline counts as the start of its next line
        if s[from] != b'\n' {
            let have = format!("{:?}", t.span);
            sym::check(have == format!("{}:{}-{}:{}", l1, c1, l2, c2), "the place of a token is wrong");
        }
        at = to;
    }
}

fn ascii() -> u8 {
    let c = sym::u8();
    sym::assume(c < 128);
    c
}

fn bytes(n: usize) {
    let v: Vec<u8> = (0..n).map(|_| ascii()).collect();
    check_lex(&v);
}

fn lex_bytes() {
    bytes(1 + sym::pick(3))
}
fn lex_bytes4() {
    bytes(4)
}

/// A word of the language with one byte replaced or added, between others.
fn lex_words() {
    let w = VOCAB[sym::pick(VOCAB.len())].as_bytes();
    let mut v = b"%a".to_vec();
    v.push(if sym::pick(2) == 0 { b' ' } else { b'\n' });
    let at = v.len() + sym::pick(w.len() + 1);
    v.extend_from_slice(w);
    let add = sym::pick(2) == 1;
    sym::assume(add || at < v.len());
    if add {
        v.insert(at, ascii());
    } else {
        v[at] = ascii();
    }
    v.extend_from_slice(b"\n@b");
    check_lex(&v);
}

fn lex_ints() {
    let p = [
        "", "-", "0", "-0", "7", "214748364", "-214748364", "92233720368547758", "-92233720368547758",
        "922337203685477580", "-922337203685477580", "1000000000000000000000000", "-99999999999999999999999",
    ];
    let mut v = p[sym::pick(p.len())].as_bytes().to_vec();
    for _ in 0..sym::pick(3) {
        let c = sym::u8();
        sym::assume(c >= b'0' && c <= b'9');
        v.push(c);
    }
    v.extend_from_slice(b" 1");
    check_lex(&v);
}

fn comment(n: usize) {
    let block = sym::pick(2) == 0;
    let mut v = b"@a".to_vec();
    v.extend_from_slice(if block { b"/*" } else { b"//" });
    for _ in 0..n {
        // any byte
        let c = sym::u8();
        sym::assume(c < 128 || c >= 0xc0);
        v.push(c);
    }
    v.extend_from_slice(if block { b"*/1" } else { b"\n1" });
    // what follows the comment has to be ASCII
    let (mut i, mut ascii) = (4, true);
    let mut inside = true;
    while i < v.len() {
        if inside {
            if block && v[i] == b'*' && i + 1 < v.len() && v[i + 1] == b'/' {
                inside = false;
                i += 1;
            } else if !block && (v[i] == b'\n' || v[i] == b'\r') {
                inside = false;
            }
        } else if v[i] >= 128 {
            ascii = false;
        }
        i += 1;
    }
    sym::assume(ascii);
    check_lex(&v);
}

fn lex_comments() {
    comment(sym::pick(4))
}
fn lex_comments5() {
    comment(sym::pick(6))
}

/// Something long, of about the sizes at which buffers and counters end, then other tokens.
fn long(sizes: &[usize]) {
    let n = sizes[sym::pick(sizes.len())] + sym::pick(4);
    let mut v: Vec<u8> = vec![];
    match sym::pick(8) {
        0 => v.resize(n, b' '),
        1 => v.resize(n, b'\n'),
        2 => {
            v.extend_from_slice(b"/*");
            v.resize(n, b'*');
            v.extend_from_slice(b"*/");
        }
        3 => {
            v.extend_from_slice(b"//");
            v.resize(n, b'/');
            v.push(b'\n');
        }
        4 => {
            v.push(b'@');
            v.resize(n, b'x');
            v.push(b' ');
        }
        5 => {
            v.push(b'%');
            v.resize(n, b'7');
            v.push(b' ');
        }
        6 => {
            v.push(if sym::pick(2) == 0 { b'-' } else { b'0' });
            v.resize(n, b'0');
            v.extend_from_slice(b"12 ");
        }
        _ => {
            v.extend_from_slice(b"add");
            v.resize(n, b' ');
            v.insert(n / 2, b'\n');
        }
    }
    let c = sym::u8();
    sym::assume(c >= b'0' && c <= b'9' || c >= b'a' && c <= b'z' || c == b'_');
    v.extend_from_slice(&[b'@', b'a', c, b'\n', b'%', b'8', b' ', b'4', b'2', b'\n', b'm', b'u', b'l', b'/', b'*', b'*', b'/', b'=']);
    match sym::pick(2) {
        0 => check_lex(&v),
        _ => check_lex_from(&v, Pieces { s: &v, n: 7 }),
    }
}

fn lex_long() {
    long(&[62, 126, 253, 1021, 4086])
}
fn lex_long5() {
    long(&[30, 62, 126, 253, 1021, 4086, 8182, 65526])
}

crate::harnesses! { lex_long lex_long5 lex_bytes lex_bytes4 lex_words lex_ints lex_comments lex_comments5 }
