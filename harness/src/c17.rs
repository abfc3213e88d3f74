//! C17: names given out by the name manager.
use crate::sym;
use crate::util::i32t;
use koopa::back::{NameManager, Prefix};
use koopa::ir::builder_traits::*;
use koopa::ir::*;
use std::num::NonZeroUsize;
use std::rc::Rc;

const NAMES: [&str; 7] = ["", "@a", "@a_0", "%0", "%1", "%a", "@abcdefgh"];

fn name(i: usize) -> Option<String> {
    (i > 0).then(|| NAMES[i].into())
}

/// What can be named: two functions, two globals, and in each of three
/// functions two blocks and two values.
struct Things {
    p: Program,
    funcs: [Function; 2],
    /// where the blocks and values are
    all: [Function; 3],
    globals: [Value; 2],
    bbs: [[BasicBlock; 2]; 3],
    values: [[Value; 2]; 3],
}

fn things() -> Things {
    let mut p = Program::new();
    let mut global = || {
        let z = p.new_value().integer(1);
        p.new_value().global_alloc(z)
    };
    let globals = [global(), global()];
    let mut func = |n: &str| {
        let f = p.new_func(FunctionData::new(n.into(), vec![i32t()], Type::get_unit()));
        let d = p.func_mut(f);
        let a = d.dfg_mut().new_bb().basic_block(None);
        let b = d.dfg_mut().new_bb().basic_block(None);
        let v = d.dfg_mut().new_value().alloc(i32t());
        (f, [a, b], [d.params()[0], v])
    };
    let (f, b, v) = func("@x");
    let (g, c, w) = func("@y");
    let (h, e, u) = func("@w");
    Things { p, funcs: [f, g], all: [f, g, h], globals, bbs: [b, c, e], values: [v, w, u] }
}

/// How names are made out of those wanted.
#[derive(Clone, Copy)]
struct Style {
    named: &'static str,
    temp: &'static str,
    max: usize,
    one_space: bool,
}
const STYLES: [Style; 4] = [
    Style { named: "@", temp: "%", max: usize::MAX, one_space: false },
    Style { named: "@", temp: "%L", max: usize::MAX, one_space: true },
    Style { named: "v_", temp: "t", max: 6, one_space: true },
    Style { named: "", temp: "", max: 3, one_space: true },
];

impl Style {
    fn wanted(&self, name: &str) -> String {
        let mut s = String::from(if name.starts_with('@') { self.named } else { self.temp });
        s.push_str(&name[1..]);
        // whole characters only
        while s.len() > self.max {
            s.pop();
        }
        s
    }
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Func(usize),
    Global(usize),
    Bb(usize),
    Value(usize),
    Temp,
}

/// A name that was given to something.
struct Given {
    what: What,
    wanted: Option<String>,
    name: Rc<String>,
}

fn ask(nm: &mut NameManager, t: &mut Things, in_f: usize, given: &mut Vec<Given>, what: What, names: usize, style: Style) {
    let first = what == What::Temp || given.iter().all(|g| g.what != what);
    // what it would like to be called is decided when it matters
    let wanted = if !first || what == What::Temp {
        None
    } else {
        let n = name(sym::pick(names));
        match what {
            What::Func(i) => match &n {
                Some(n) => t.p.func_mut(t.funcs[i]).set_name(n.clone()),
                None => t.p.func_mut(t.funcs[i]).set_name("@z".into()),
            },
            What::Global(i) => t.p.set_value_name(t.globals[i], n.clone()),
            What::Bb(i) => t.p.func_mut(t.all[in_f]).dfg_mut().bb_mut(t.bbs[in_f][i]).set_name(n.clone()),
            What::Value(i) => t.p.func_mut(t.all[in_f]).dfg_mut().set_value_name(t.values[in_f][i], n.clone()),
            What::Temp => {}
        }
        match what {
            What::Func(_) => Some(n.unwrap_or("@z".into())),
            _ => n,
        }
    };
    let got = match what {
        What::Func(i) => nm.func_name(t.p.func(t.funcs[i])),
        What::Global(i) => nm.value_name(&t.p.borrow_value(t.globals[i])),
        What::Bb(i) => nm.bb_name(t.p.func(t.all[in_f]).dfg().bb(t.bbs[in_f][i])),
        What::Value(i) => nm.value_name(t.p.func(t.all[in_f]).dfg().value(t.values[in_f][i])),
        What::Temp => nm.temp_value_name(),
    };
    if !first {
        let g = given.iter().find(|g| g.what == what).unwrap();
        sym::check(*g.name == *got, "something gets another name when asked again");
        return;
    }
    let is_bb = |w: What| matches!(w, What::Bb(_));
    let shared = |g: &Given| style.one_space || is_bb(g.what) == is_bb(what);
    for g in given.iter().filter(|g| shared(g)) {
        sym::check(*g.name != *got, "two things get one name");
    }
    match &wanted {
        Some(w) => {
            let w = style.wanted(w);
            if given.iter().filter(|g| shared(g)).all(|g| *g.name != w) {
                sym::check(*got == w, "something does not get its name although nothing else has it");
                sym::reach(0);
            } else {
                sym::check(!got.is_empty(), "no name");
                sym::reach(1);
            }
        }
        None => {
            let d = got.strip_prefix(style.temp);
            sym::check(
                d.map_or(false, |d| !d.is_empty() && d.bytes().all(|c| c.is_ascii_digit())),
                "a temporary name is not a number",
            );
            sym::check(given.iter().all(|g| *g.name != *got), "a temporary name is the name of something else");
            sym::reach(2);
        }
    }
    given.push(Given { what, wanted, name: got });
}

/// Any of the things; among those that are alike the first comes first.
fn any(given: &[Given]) -> What {
    let mut of = |w: fn(usize) -> What| {
        if given.iter().any(|g| g.what == w(0)) {
            w(sym::pick(2))
        } else {
            w(0)
        }
    };
    match sym::pick(5) {
        0 => of(What::Func),
        1 => of(What::Global),
        2 => of(What::Bb),
        3 => of(What::Value),
        _ => What::Temp,
    }
}

fn names(n: usize, cand: usize, style: usize) {
    let mut t = things();
    let style = STYLES[style];
    let mut nm = NameManager::new();
    if style.one_space {
        nm.set_prefix(Prefix::Custom {
            named: style.named.into(),
            temp: style.temp.into(),
            max_len: if style.max == usize::MAX { None } else { NonZeroUsize::new(style.max) },
        });
    }
    let mut given = vec![];
    nm.enter_func_scope();
    for _ in 0..n {
        let w = any(&given);
        ask(&mut nm, &mut t, 0, &mut given, w, cand, style);
    }
    // what has been named keeps its name
    for w in given.iter().map(|g| g.what).filter(|w| *w != What::Temp).collect::<Vec<_>>() {
        ask(&mut nm, &mut t, 0, &mut given, w, cand, style);
    }
    nm.exit_func_scope();
    // in the next function blocks and values are others
    given.retain(|g| matches!(g.what, What::Func(_) | What::Global(_) | What::Temp));
    for w in given.iter().map(|g| g.what).filter(|w| *w != What::Temp).collect::<Vec<_>>() {
        ask(&mut nm, &mut t, 0, &mut given, w, cand, style);
    }
    nm.enter_func_scope();
    let w = any(&given);
    ask(&mut nm, &mut t, 1, &mut given, w, cand, style);
    nm.exit_func_scope();
}

fn names_plain() {
    names(3, 5, 0)
}
fn names_plain4() {
    names(4, 4, 0)
}
fn names_custom() {
    names(2, NAMES.len(), 1 + sym::pick(3))
}
fn names_custom3() {
    names(3, NAMES.len(), 1 + sym::pick(3))
}

/// Names of characters of one to four bytes, and any limit.
fn names_cut() {
    let sort = sym::pick(4);
    let style = Style { named: "@", temp: "%L", max: 2 + sym::pick(16), one_space: true };
    let mut n = String::from(if sym::pick(2) == 1 { "@" } else { "%" });
    for _ in 0..3 {
        n.push(['a', 'é', '€', '𝄞'][sym::pick(4)]);
    }
    n.push('b');
    let mut t = things();
    let mut nm = NameManager::new();
    nm.set_prefix(Prefix::Custom { named: style.named.into(), temp: style.temp.into(), max_len: NonZeroUsize::new(style.max) });
    nm.enter_func_scope();
    let mut got = vec![];
    for i in 0..2 {
        got.push(match sort {
            0 => {
                t.p.func_mut(t.funcs[i]).set_name(n.clone());
                nm.func_name(t.p.func(t.funcs[i]))
            }
            1 => {
                t.p.set_value_name(t.globals[i], Some(n.clone()));
                nm.value_name(&t.p.borrow_value(t.globals[i]))
            }
            2 => {
                t.p.func_mut(t.all[0]).dfg_mut().bb_mut(t.bbs[0][i]).set_name(Some(n.clone()));
                nm.bb_name(t.p.func(t.all[0]).dfg().bb(t.bbs[0][i]))
            }
            _ => {
                t.p.func_mut(t.all[0]).dfg_mut().set_value_name(t.values[0][i], Some(n.clone()));
                nm.value_name(t.p.func(t.all[0]).dfg().value(t.values[0][i]))
            }
        });
    }
    let w = style.wanted(&n);
    sym::check(*got[0] == w, "a name is not the wanted one up to the limit");
    sym::check(got[0] != got[1], "two things get one name");
    sym::reach((w.len() < style.max && w.len() < n.len()) as u32);
}

/// One function after another, asking for names inside and in between.
fn names_funcs(n: usize, cand: usize, style: usize) {
    let mut t = things();
    let style = STYLES[style];
    let mut nm = NameManager::new();
    if style.one_space {
        nm.set_prefix(Prefix::Custom {
            named: style.named.into(),
            temp: style.temp.into(),
            max_len: if style.max == usize::MAX { None } else { NonZeroUsize::new(style.max) },
        });
    }
    let mut given: Vec<Given> = vec![];
    for f in 0..3 {
        if sym::pick(2) == 1 {
            let of: fn(usize) -> What = if sym::pick(2) == 1 { What::Func } else { What::Global };
            let w = of((given.iter().any(|g| g.what == of(0))) as usize);
            ask(&mut nm, &mut t, f, &mut given, w, cand, style);
        }
        nm.enter_func_scope();
        for _ in 0..n {
            let w = any(&given);
            ask(&mut nm, &mut t, f, &mut given, w, cand, style);
        }
        nm.exit_func_scope();
        given.retain(|g| matches!(g.what, What::Func(_) | What::Global(_) | What::Temp));
    }
    for w in given.iter().map(|g| g.what).filter(|w| *w != What::Temp).collect::<Vec<_>>() {
        ask(&mut nm, &mut t, 0, &mut given, w, cand, style);
    }
}
fn names_scopes() {
    names_funcs(1, 2, 0)
}
fn names_scopes_one() {
    names_funcs(1, 2, 1)
}
fn names_scopes3() {
    names_funcs(1, 4, sym::pick(2))
}

/// The scope has to be entered and left in turn; constants have no names.
fn names_scope() {
    let mut nm = NameManager::new();
    let mut inside = false;
    let mut t = things();
    let k = t.p.func_mut(t.funcs[0]).dfg_mut().new_value().integer(3);
    let z = t.p.func_mut(t.funcs[0]).dfg_mut().new_value().zero_init(i32t());
    for _ in 0..4 {
        match sym::pick(3) {
            0 => {
                sym::must_panic_iff(inside, || nm.enter_func_scope());
                inside = true;
            }
            1 => {
                sym::must_panic_iff(!inside, || nm.exit_func_scope());
                inside = false;
            }
            _ => {
                let v = [k, z, t.values[0][0], t.values[0][1]][sym::pick(4)];
                let d = t.p.func(t.funcs[0]).dfg().value(v);
                sym::must_panic_iff(v == k || v == z, || {
                    nm.value_name(d);
                });
            }
        }
    }
    sym::reach(0);
}

/// More than a hundred things of one sort that want the same name.
fn names_crowd() {
    let n = [65, 101, 102, 130][sym::pick(4)];
    let sort = sym::pick(4);
    let style = STYLES[sym::pick(4)];
    // every one of them, or every other one wants a name with a number
    let way = sym::pick(3);
    let wish = |i: usize| match way {
        1 if i % 2 == 1 => format!("@a_{}", i),
        2 if i % 3 == 1 => format!("@a_{}", n - i),
        _ => "@a".to_string(),
    };
    let mut p = Program::new();
    let f = p.new_func(FunctionData::new("@in".into(), vec![], i32t()));
    let mut nm = NameManager::new();
    if style.one_space {
        nm.set_prefix(Prefix::Custom {
            named: style.named.into(),
            temp: style.temp.into(),
            max_len: if style.max == usize::MAX { None } else { NonZeroUsize::new(style.max) },
        });
    }
    if sort > 1 {
        nm.enter_func_scope();
    }
    // the program stays as it is while names are given out
    let mut vs: Vec<Value> = vec![];
    let mut fs = vec![];
    let mut bs = vec![];
    for i in 0..n {
        let w = Some(wish(i));
        match sort {
            0 => {
                let z = p.new_value().integer(1);
                let g = p.new_value().global_alloc(z);
                p.set_value_name(g, w);
                vs.push(g);
            }
            1 => fs.push(p.new_func(FunctionData::new(wish(i), vec![], i32t()))),
            2 => bs.push(p.func_mut(f).dfg_mut().new_bb().basic_block(w)),
            _ => {
                let d = p.func_mut(f).dfg_mut();
                let v = d.new_value().alloc(i32t());
                d.set_value_name(v, w);
                vs.push(v);
            }
        }
    }
    let mut name = |i: usize| match sort {
        0 => nm.value_name(&p.borrow_value(vs[i])),
        1 => nm.func_name(p.func(fs[i])),
        2 => nm.bb_name(p.func(f).dfg().bb(bs[i])),
        _ => nm.value_name(p.func(f).dfg().value(vs[i])),
    };
    let mut all: Vec<Rc<String>> = vec![];
    for i in 0..n {
        let got = name(i);
        let want = style.wanted(&wish(i));
        let mut taken = false;
        for a in &all {
            sym::check(**a != *got, "two things get one name");
            taken |= **a == *want;
        }
        sym::check(taken || *got == want, "something does not get its name although nothing else has it");
        all.push(got);
    }
    for i in 0..n {
        sym::check(name(i) == all[i], "another name when asked again");
    }
    sym::reach(0);
}

/// A crowd that wants the same names, asked in one of several orders.
fn names_many() {
    let n = 14;
    let style = STYLES[sym::pick(4)];
    let way = sym::pick(5);
    let odd = sym::pick(n);
    let odd_name = ["@a_1", "%a_10", "%1", "%10"][sym::pick(4)];
    let wish = |i: usize| -> Option<String> {
        if i == odd {
            return Some(odd_name.into());
        }
        match way {
            0 => Some("%a".into()),
            1 => (i % 2 == 0).then(|| "%a".into()),
            2 => Some(if i % 2 == 0 { "@a".into() } else { "%a".into() }),
            3 => Some(format!("%{}", n - i)),
            _ => None,
        }
    };
    let mut p = Program::new();
    let mut gs = vec![];
    let mut fs = vec![];
    for i in 0..n {
        let z = p.new_value().integer(1);
        let g = p.new_value().global_alloc(z);
        p.set_value_name(g, wish(i));
        gs.push(g);
        fs.push(p.new_func(FunctionData::new(wish(i).unwrap_or(format!("@f{}", i)), vec![], i32t())));
    }
    let f = p.new_func(FunctionData::new("@in".into(), vec![], i32t()));
    let mut bs = vec![];
    let mut vs = vec![];
    for i in 0..n {
        let d = p.func_mut(f).dfg_mut();
        bs.push(d.new_bb().basic_block(wish(i)));
        let v = d.new_value().alloc(i32t());
        d.set_value_name(v, wish(i));
        vs.push(v);
    }
    let mut nm = NameManager::new();
    if style.one_space {
        nm.set_prefix(Prefix::Custom {
            named: style.named.into(),
            temp: style.temp.into(),
            max_len: if style.max == usize::MAX { None } else { NonZeroUsize::new(style.max) },
        });
    }
    nm.enter_func_scope();
    // (block?, name wanted, name given)
    let mut all: Vec<(bool, Option<String>, Rc<String>)> = vec![];
    let order = sym::pick(3);
    let temps = sym::pick(2) == 1;
    for i in 0..4 * n {
        let (kind, k) = if order == 0 { (i % 4, i / 4) } else if order == 1 { (i / n, i % n) } else { (3 - i / n, n - 1 - i % n) };
        let mut wanted = wish(k);
        let got = match kind {
            0 => nm.value_name(&p.borrow_value(gs[k])),
            1 => {
                wanted = Some(wanted.unwrap_or(format!("@f{}", k)));
                nm.func_name(p.func(fs[k]))
            }
            2 => nm.bb_name(p.func(f).dfg().bb(bs[k])),
            _ => nm.value_name(p.func(f).dfg().value(vs[k])),
        };
        let b = kind == 2;
        let clash = |x: &str| all.iter().any(|a| (style.one_space || a.0 == b) && **a.2 == *x);
        sym::check(!clash(&got), "two things get one name");
        if let Some(w) = &wanted {
            let w = style.wanted(w);
            if !clash(&w) {
                sym::check(*got == w, "something does not get its name although nothing else has it");
            }
        }
        sym::check(!got.is_empty(), "no name");
        all.push((b, wanted, got));
        if temps && i % 5 == 4 {
            let got = nm.temp_value_name();
            sym::check(all.iter().all(|a| *a.2 != *got), "a temporary name is the name of something else");
            all.push((false, None, got));
        }
    }
    for i in 0..n {
        let d = p.func(f).dfg();
        for got in [nm.value_name(&p.borrow_value(gs[i])), nm.value_name(d.value(vs[i])), nm.func_name(p.func(fs[i]))] {
            sym::check(all.iter().any(|a| !a.0 && Rc::ptr_eq(&a.2, &got) || *a.2 == *got), "another name when asked again");
        }
        let got = nm.bb_name(d.bb(bs[i]));
        sym::check(all.iter().any(|a| a.0 && *a.2 == *got), "another name when asked again");
    }
    nm.exit_func_scope();
    sym::reach(0);
}

/// Functions one after the other that want the same many names.
fn names_again() {
    let n = [1, 3, 4, 5, 7, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100][sym::pick(15)];
    let style = [STYLES[0], STYLES[1], STYLES[3]][sym::pick(3)];
    // which sorts of things are named: values, blocks, both
    let sorts = 1 + sym::pick(3);
    let rounds = 3;
    // from this round on the names are asked for backwards
    let back = sym::pick(4);
    let temp = sym::pick(2) == 1;
    let mut p = Program::new();
    let z = p.new_value().integer(1);
    let g = p.new_value().global_alloc(z);
    p.set_value_name(g, Some("@g".into()));
    let mut nm = NameManager::new();
    if style.one_space {
        nm.set_prefix(Prefix::Custom {
            named: style.named.into(),
            temp: style.temp.into(),
            max_len: if style.max == usize::MAX { None } else { NonZeroUsize::new(style.max) },
        });
    }
    let gn = nm.value_name(&p.borrow_value(g));
    sym::check(*gn == style.wanted("@g"), "a global does not get its name");
    let mut fns = vec![];
    for r in 0..rounds {
        let f = p.new_func(FunctionData::new(format!("@f{}", r), vec![], i32t()));
        let d = p.func_mut(f).dfg_mut();
        let mut things = vec![];
        for i in 0..n {
            let v = d.new_value().alloc(i32t());
            d.set_value_name(v, Some(format!("@v{}", i)));
            let b = d.new_bb().basic_block(Some(format!("%b{}", i)));
            things.push((v, b));
        }
        let fname = nm.func_name(p.func(f));
        sym::check(*fname == style.wanted(&format!("@f{}", r)), "a function does not get its name");
        fns.push((f, fname));
        nm.enter_func_scope();
        let d = p.func(f).dfg();
        let mut got = vec![];
        for k in 0..n {
            let i = if r >= back { n - 1 - k } else { k };
            if sorts & 1 != 0 {
                let x = nm.value_name(d.value(things[i].0));
                sym::check(*x == style.wanted(&format!("@v{}", i)), "a value does not get its name although it is free again");
                got.push((true, i, x));
            }
            if sorts & 2 != 0 {
                let x = nm.bb_name(d.bb(things[i].1));
                sym::check(*x == style.wanted(&format!("%b{}", i)), "a block does not get its name although it is free again");
                got.push((false, i, x));
            }
            if temp && k % 4 == 0 {
                let x = nm.temp_value_name();
                sym::check(got.iter().all(|y| *y.2 != *x), "a temporary name is the name of something else");
            }
        }
        for (val, i, x) in &got {
            let y = if *val { nm.value_name(d.value(things[*i].0)) } else { nm.bb_name(d.bb(things[*i].1)) };
            sym::check(*y == **x, "another name when asked again");
        }
        nm.exit_func_scope();
        sym::check(*nm.value_name(&p.borrow_value(g)) == *gn, "a global gets another name later");
        for (f, x) in &fns {
            sym::check(*nm.func_name(p.func(*f)) == **x, "a function gets another name later");
        }
    }
    sym::reach(0);
}

crate::harnesses! {
    names_again
    names_many names_crowd names_cut
    names_plain names_plain4 names_custom names_custom3 names_scope names_scopes names_scopes_one names_scopes3
}
