//! Types: identity, layout and spelling.
use crate::c05::{arr, ptr, T};
use crate::sym;
use koopa::ir::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use T::*;

/// A type of at most `d` nested constructors; lengths stay symbolic.
fn gen(d: usize, len: &dyn Fn() -> usize) -> T {
    match sym::pick(if d == 0 { 2 } else { 5 }) {
        0 => I,
        1 => U,
        2 => P(Box::new(gen(d - 1, len))),
        3 => {
            let b = gen(d - 1, len);
            A(Box::new(b), len())
        }
        _ => {
            let n = sym::pick(3);
            let mut ps = vec![];
            for _ in 0..n {
                ps.push(gen(if d > 1 { 1 } else { 0 }, len));
            }
            F(ps, Box::new(gen(d - 1, len)))
        }
    }
}

fn same(a: &T, b: &T) -> bool {
    // no short cut over the symbolic parts: their conjunction goes to the solver
    match (a, b) {
        (I, I) | (U, U) => true,
        (P(x), P(y)) => same(x, y),
        (A(x, n), A(y, m)) => {
            let s = same(x, y);
            s & (n == m)
        }
        (F(p, r), F(q, s)) => {
            p.len() == q.len() && {
                let mut ok = same(r, s);
                for (x, y) in p.iter().zip(q) {
                    ok &= same(x, y);
                }
                ok
            }
        }
        _ => false,
    }
}

fn hash(t: &Type) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn size(t: &T, p: usize) -> usize {
    match t {
        I => 4,
        U => 0,
        A(b, n) => size(b, p).wrapping_mul(*n),
        P(_) | F(..) => p,
    }
}

/// Two types are equal exactly if they are built alike.
fn identity(d1: usize, d2: usize) {
    let len = || {
        let n = sym::u64() as usize;
        sym::assume(n != 0);
        n
    };
    let a = gen(d1, &len);
    let b = gen(d2, &len);
    let x = a.make();
    let y = b.make();
    sym::check(a.is(&x), "a type is not made of what it was asked for");
    sym::check(b.is(&y), "a type is not made of what it was asked for");
    let eq = same(&a, &b);
    sym::check((x == y) == eq, "equality of types is not equality of structure");
    sym::check((x.kind() == y.kind()) == eq, "equality of kinds is not equality of structure");
    if x == y {
        sym::check(hash(&x) == hash(&y), "equal types hash differently");
        sym::reach(1);
    } else {
        sym::reach(2);
    }
    let again = b.make();
    sym::check(again == y && Type::get(y.kind().clone()) == y && y.clone() == y, "a type is not equal to itself");
    sym::check(x.is_i32() == (a == I) && x.is_unit() == (a == U), "classification of types is wrong");
}
fn type_identity() {
    identity(1, 1)
}
fn type_identity2() {
    identity(2, 2)
}
fn type_identity12() {
    identity(1, 2)
}

/// Sizes for every length and every pointer size.
fn type_size() {
    let ps = sym::u16() as usize;
    let set = sym::pick(2) == 1;
    // made before or after the pointer size is set
    let len = || {
        let n = sym::u8() as usize;
        sym::assume(n != 0);
        n
    };
    let a = gen(2, &len);
    if sym::pick(2) == 1 {
        let x = a.make();
        if set {
            Type::set_ptr_size(ps);
        }
        sym::check(x.size() == size(&a, if set { ps } else { 8 }), "the size of a type is wrong");
    } else {
        if set {
            Type::set_ptr_size(ps);
        }
        let x = a.make();
        sym::check(x.size() == size(&a, if set { ps } else { 8 }), "the size of a type is wrong");
        if set {
            Type::set_ptr_size(4);
            sym::check(x.size() == size(&a, 4), "the size of a type is wrong");
        }
    }
    sym::reach(0);
}

fn spell(t: &T, s: &mut Vec<u8>) {
    match t {
        I => s.extend_from_slice(b"i32"),
        U => s.extend_from_slice(b"unit"),
        P(t) => {
            s.push(b'*');
            spell(t, s)
        }
        A(t, n) => {
            s.push(b'[');
            spell(t, s);
            s.extend_from_slice(b", ");
            // at most three digits
            let n = *n as u32;
            if n >= 100 {
                s.push(b'0' + (n / 100) as u8);
            }
            if n >= 10 {
                s.push(b'0' + (n / 10 % 10) as u8);
            }
            s.push(b'0' + (n % 10) as u8);
            s.push(b']')
        }
        F(ps, r) => {
            s.push(b'(');
            for (i, p) in ps.iter().enumerate() {
                if i > 0 {
                    s.extend_from_slice(b", ");
                }
                spell(p, s);
            }
            s.push(b')');
            if **r != U {
                s.extend_from_slice(b": ");
                spell(r, s)
            }
        }
    }
}

/// The printed form of small types with any length, and of larger ones.
fn type_text() {
    if sym::pick(2) == 0 {
        let len = || {
            let n = sym::u16();
            sym::assume(n != 0 && n < 1000);
            n as usize
        };
        text(gen(1, &len))
    } else {
        let count = std::cell::Cell::new(0);
        let len = || {
            count.set(count.get() + 1);
            [7, 1, 10, 999, 100][count.get() % 5]
        };
        text(gen(2, &len))
    }
}

fn text(a: T) {
    let x = a.make();
    let mut want = vec![];
    spell(&a, &mut want);
    let got = x.to_string();
    sym::check(got.as_bytes() == &want[..], "the spelling of a type is wrong");
    sym::check(format!("{:?}", x).as_bytes() == &want[..], "the spelling of a type is wrong");
    sym::check(x.kind().to_string().as_bytes() == &want[..], "the spelling of a type is wrong");
    sym::reach(0);
}

/// The printed form.
fn type_text2() {
    // the first length is any number, the others are fixed
    let count = std::cell::Cell::new(0);
    let len = || {
        count.set(count.get() + 1);
        match count.get() {
            1 => {
                let n = sym::u16();
                sym::assume(n != 0 && n < 1000);
                n as usize
            }
            k => [1, 10, 999, 100][k % 4],
        }
    };
    text(gen(2, &len))
}

fn type_zero_len() {
    let n = sym::u64() as usize;
    let base = gen(1, &|| 3);
    let b = base.make();
    sym::must_panic_iff(n == 0, || {
        let t = Type::get_array(b, n);
        sym::check(arr(base, n).is(&t), "a type is not made of what it was asked for");
    });
}

/// The pool of types keeps apart many types at once.
fn type_many() {
    let n = 40;
    let pick = sym::pick(3);
    let mk = |i: usize| -> T {
        match i % 4 {
            0 => arr(I, i + 1),
            1 => ptr(arr(ptr(I), i + 1)),
            2 => F(vec![I; i % 7], Box::new(if i % 8 < 4 { I } else { arr(I, i) })),
            _ => F(vec![arr(U, i)], Box::new(U)),
        }
    };
    let ts: Vec<Type> = (0..n).map(|i| mk(i).make()).collect();
    for i in 0..n {
        sym::check(mk(i).is(&ts[i]), "a type is not made of what it was asked for");
        for j in 0..n {
            if pick == (i + j) % 3 {
                sym::check((ts[i] == ts[j]) == (mk(i) == mk(j)), "equality of types is not equality of structure");
            }
        }
        sym::check(mk(i).make() == ts[i], "a type is not equal to itself");
    }
}

/// Function types with many parameters, alike up to one place.
fn type_wide() {
    let n = [0, 1, 3, 7, 8, 9, 12, 16, 17, 32, 33, 64, 65][sym::pick(13)];
    let ret = if sym::pick(2) == 0 { I } else { U };
    let mk = |i: usize| match i % 3 {
        0 => I,
        1 => ptr(I),
        _ => arr(I, i),
    };
    let ps: Vec<T> = (0..n).map(mk).collect();
    let a = F(ps.clone(), Box::new(ret.clone()));
    let x = a.make();
    sym::check(a.is(&x), "a type is not made of what it was asked for");
    let mut qs = ps.clone();
    match sym::pick(4) {
        0 => (),
        1 => qs.push(I),
        2 => {
            if qs.pop().is_none() {
                return;
            }
        }
        _ => {
            if n == 0 {
                return;
            }
            let k = sym::pick(n);
            qs[k] = F(vec![], Box::new(U))
        }
    }
    let b = F(qs, Box::new(ret));
    let y = b.make();
    sym::check(b.is(&y), "a type is not made of what it was asked for");
    sym::check((x == y) == (a == b), "equality of types is not equality of structure");
    if x == y {
        sym::check(hash(&x) == hash(&y), "equal types hash differently");
        sym::reach(1);
    } else {
        sym::reach(2);
    }
    text(b);
}

/// Types of many layers.
fn type_tall() {
    let n = [1, 2, 3, 4, 5, 8, 9, 16, 17, 40][sym::pick(10)];
    let kind = sym::pick(5);
    let ps = sym::u16() as usize;
    Type::set_ptr_size(ps);
    let layer = |t: T, i: usize| match (kind + i * (kind / 4)) % 4 {
        0 => ptr(t),
        1 => arr(t, 1 + i % 2),
        2 => F(vec![], Box::new(t)),
        _ => F(vec![t], Box::new(U)),
    };
    let mut t = I;
    let odd = sym::pick(n + 1);
    let mut u = I;
    for i in 0..n {
        t = layer(t, i);
        u = layer(if i == odd { ptr(u) } else { u }, i);
    }
    let x = t.make();
    let y = u.make();
    sym::check(t.is(&x) && u.is(&y), "a type is not made of what it was asked for");
    sym::check((x == y) == (odd == n), "equality of types is not equality of structure");
    if x == y {
        sym::check(hash(&x) == hash(&y), "equal types hash differently");
    }
    sym::check(x.size() == size(&t, ps) && y.size() == size(&u, ps), "the size of a type is wrong");
    text(t);
}

/// Lengths of many digits.
fn type_long() {
    let n = [1000, 65535, 65536, 1 << 31, (1 << 32) - 1, 1 << 32, 10000000000, 1 << 63, usize::MAX][sym::pick(9)];
    let m = [1000, 65535, 65536, 1 << 31, (1 << 32) - 1, 1 << 32, 10000000000, 1 << 63, usize::MAX][sym::pick(9)];
    let x = arr(arr(I, n), 2).make();
    let y = arr(arr(I, m), 2).make();
    sym::check((x == y) == (n == m), "equality of types is not equality of structure");
    sym::check(x.to_string() == format!("[[i32, {}], 2]", n), "the spelling of a type is wrong");
    if n < 1 << 60 {
        sym::check(x.size() == 8 * n, "the size of a type is wrong");
    }
    sym::reach(0);
}

crate::harnesses! { type_wide type_tall type_long type_identity type_identity12 type_identity2 type_size type_text type_text2 type_zero_len type_many }
