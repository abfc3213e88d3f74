//! Printing a program and reading it back gives the same program.
use crate::c02::{koopa_text, parse};
use crate::fam::{self, Prog};
use crate::sym;
use crate::util::*;
use koopa::ir::builder_traits::*;
use koopa::ir::entities::*;
use koopa::ir::*;
use std::collections::HashMap;

#[derive(Clone, Copy)]
enum At<'a> {
    Global(&'a Program),
    Local(&'a FunctionData),
}

/// Whether two constants (or two references to variables, by `map`) are the same.
fn same_value(p: &Program, q: &Program, x: At, y: At, v: Value, w: Value, map: &HashMap<Value, Value>) -> bool {
    if v.is_global() != w.is_global() {
        return false;
    }
    if let Some(m) = map.get(&v) {
        return *m == w;
    }
    let go = |a: &ValueData, b: &ValueData| -> bool {
        if a.ty() != b.ty() {
            return false;
        }
        match (a.kind(), b.kind()) {
            (ValueKind::Integer(i), ValueKind::Integer(j)) => i.value() == j.value(),
            (ValueKind::Undef(_), ValueKind::Undef(_)) => true,
            (ValueKind::ZeroInit(_), ValueKind::ZeroInit(_)) => true,
            (ValueKind::Aggregate(i), ValueKind::Aggregate(j)) => {
                i.elems().len() == j.elems().len()
                    && i.elems().iter().zip(j.elems()).all(|(a, b)| same_value(p, q, x, y, *a, *b, map))
            }
            _ => false,
        }
    };
    match (x, y) {
        (At::Local(f), At::Local(g)) if !v.is_global() => go(f.dfg().value(v), g.dfg().value(w)),
        (At::Global(p), At::Global(q)) => go(&p.borrow_value(v), &q.borrow_value(w)),
        _ => false,
    }
}

/// Names that somebody else has, or that look like those made up for what has none.
struct Taken(Vec<String>);

impl Taken {
    fn kept(&self, n: &Option<String>, m: &Option<String>) -> bool {
        let made_up = |s: &String| s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit());
        match n {
            Some(s) => {
                // nor what is made up for two with the same name
                let base = match s.rfind('_') {
                    Some(i) => s[..i].to_string(),
                    None => String::new(),
                };
                let times = |s: &String| self.0.iter().filter(|x| *x == s).count();
                made_up(s) || times(s) > 1 || times(&base) > 1 || n == m
            }
            None => m.as_ref().map_or(true, |s| made_up(s)),
        }
    }
}

/// `q`, read from text, is `p`, without the blocks that cannot be reached.
pub fn same_program(p: &Program, q: &Program) {
    let mut global_names = vec![];
    for g in p.inst_layout() {
        global_names.extend(p.borrow_value(*g).name().clone());
    }
    for f in p.func_layout() {
        global_names.push(p.func(*f).name().to_string());
    }
    let taken = Taken(global_names.clone());
    let mut map: HashMap<Value, Value> = HashMap::new();
    sym::check(p.inst_layout().len() == q.inst_layout().len(), "read back: another number of globals");
    for (v, w) in p.inst_layout().iter().zip(q.inst_layout()) {
        let (a, b) = (p.borrow_value(*v), q.borrow_value(*w));
        sym::check(a.ty() == b.ty(), "read back: a global has another type");
        sym::check(taken.kept(a.name(), b.name()), "read back: the name of a global is not kept");
        match (a.kind(), b.kind()) {
            (ValueKind::GlobalAlloc(x), ValueKind::GlobalAlloc(y)) => sym::check(
                same_value(p, q, At::Global(p), At::Global(q), x.init(), y.init(), &map),
                "read back: a global has another initial value",
            ),
            _ => sym::check(false, "read back: a global of another kind"),
        }
        map.insert(*v, *w);
    }
    sym::check(p.func_layout().len() == q.func_layout().len(), "read back: another number of functions");
    let mut funcs: HashMap<Function, Function> = HashMap::new();
    for (a, b) in p.func_layout().iter().zip(q.func_layout()) {
        funcs.insert(*a, *b);
        let (f, g) = (p.func(*a), q.func(*b));
        sym::check(f.ty() == g.ty(), "read back: a function has another type");
        let (n, m) = (Some(f.name().to_string()), Some(g.name().to_string()));
        sym::check(taken.kept(&n, &m), "read back: the name of a function is not kept");
        same_function(p, q, f, g, &global_names, &map, &funcs);
    }
}

fn same_function(
    p: &Program,
    q: &Program,
    f: &FunctionData,
    g: &FunctionData,
    global_names: &[String],
    globals: &HashMap<Value, Value>,
    funcs: &HashMap<Function, Function>,
) {
    sym::check(f.dfg().bbs().is_empty() == g.dfg().bbs().is_empty(), "read back: definition and declaration mixed up");
    if f.dfg().bbs().is_empty() {
        return;
    }
    let mut names = global_names.to_vec();
    for d in f.dfg().values().values() {
        names.extend(d.name().clone());
    }
    let taken = Taken(names);
    let mut labels = vec![];
    for d in f.dfg().bbs().values() {
        labels.extend(d.name().clone());
    }
    let labels = Taken(labels);
    let mut map = globals.clone();
    let mut pair = |v: Value, w: Value, map: &mut HashMap<Value, Value>| {
        let (a, b) = (f.dfg().value(v), g.dfg().value(w));
        sym::check(a.ty() == b.ty(), "read back: a value has another type");
        if !a.ty().is_unit() {
            sym::check(taken.kept(a.name(), b.name()), "read back: the name of a value is not kept");
        }
        map.insert(v, w);
    };
    sym::check(f.params().len() == g.params().len(), "read back: another number of parameters");
    for (i, (v, w)) in f.params().iter().zip(g.params()).enumerate() {
        pair(*v, *w, &mut map);
        match g.dfg().value(*w).kind() {
            ValueKind::FuncArgRef(r) => sym::check(r.index() == i, "read back: wrong index of a parameter"),
            _ => sym::check(false, "read back: not a parameter"),
        }
    }
    // blocks, from the entry
    let mut bbs: HashMap<BasicBlock, BasicBlock> = HashMap::new();
    let mut todo = vec![(f.layout().entry_bb().unwrap(), g.layout().entry_bb().unwrap())];
    bbs.insert(todo[0].0, todo[0].1);
    let mut at = 0;
    while at < todo.len() {
        let (b, c) = todo[at];
        at += 1;
        let (x, y) = (f.dfg().bb(b), g.dfg().bb(c));
        sym::check(labels.kept(x.name(), y.name()), "read back: the name of a block is not kept");
        sym::check(x.params().len() == y.params().len(), "read back: another number of block parameters");
        for (i, (v, w)) in x.params().iter().zip(y.params()).enumerate() {
            pair(*v, *w, &mut map);
            match g.dfg().value(*w).kind() {
                ValueKind::BlockArgRef(r) => sym::check(r.index() == i, "read back: wrong index of a block parameter"),
                _ => sym::check(false, "read back: not a block parameter"),
            }
        }
        let is: Vec<Value> = f.layout().bbs().node(&b).unwrap().insts().keys().copied().collect();
        let js: Vec<Value> = match g.layout().bbs().node(&c) {
            Some(n) => n.insts().keys().copied().collect(),
            None => vec![],
        };
        sym::check(is.len() == js.len(), "read back: another number of instructions");
        for (v, w) in is.iter().zip(&js) {
            pair(*v, *w, &mut map);
            let (t, u) = (targets(f.dfg().value(*v).kind()), targets(g.dfg().value(*w).kind()));
            sym::check(t.len() == u.len(), "read back: another kind of instruction");
            for (b, c) in t.iter().zip(&u) {
                match bbs.get(b) {
                    Some(x) => sym::check(x == c, "read back: another target"),
                    None => {
                        bbs.insert(*b, *c);
                        todo.push((*b, *c));
                    }
                }
            }
        }
    }
    sym::check(g.layout().bbs().len() == todo.len(), "read back: too many blocks");
    // contents
    for (b, c) in &todo {
        let x = f.layout().bbs().node(b).unwrap().insts().keys();
        let y = g.layout().bbs().node(c).unwrap().insts().keys();
        for (v, w) in x.zip(y) {
            let (k, l) = (f.dfg().value(*v).kind(), g.dfg().value(*w).kind());
            let extra = match (k, l) {
                (ValueKind::Alloc(_), ValueKind::Alloc(_)) => true,
                (ValueKind::Load(_), ValueKind::Load(_)) => true,
                (ValueKind::Store(_), ValueKind::Store(_)) => true,
                (ValueKind::GetPtr(_), ValueKind::GetPtr(_)) => true,
                (ValueKind::GetElemPtr(_), ValueKind::GetElemPtr(_)) => true,
                (ValueKind::Binary(a), ValueKind::Binary(b)) => a.op() == b.op(),
                (ValueKind::Branch(a), ValueKind::Branch(b)) => {
                    a.true_args().len() == b.true_args().len() && a.false_args().len() == b.false_args().len()
                }
                (ValueKind::Jump(_), ValueKind::Jump(_)) => true,
                (ValueKind::Call(a), ValueKind::Call(b)) => funcs.get(&a.callee()) == Some(&b.callee()),
                (ValueKind::Return(a), ValueKind::Return(b)) => a.value().is_some() == b.value().is_some(),
                _ => false,
            };
            sym::check(extra, "read back: an instruction of another kind");
            let (o, r) = (uses(k), uses(l));
            sym::check(o.len() == r.len(), "read back: another number of operands");
            for (a, b) in o.iter().zip(&r) {
                sym::check(
                    same_value(p, q, At::Local(f), At::Local(g), *a, *b, &map),
                    "read back: another operand",
                );
            }
        }
    }
}

fn round_trip(x: Prog) {
    let t = koopa_text(&x.p);
    sym::observe_bytes(&t);
    match parse(&t[..]) {
        Some(q) => {
            same_program(&x.p, &q);
            sym::reach(0);
        }
        None => {
            sym::trace_bytes(&t);
            sym::check(false, "the text of a valid program is not accepted")
        }
    }
}

fn text_arith() {
    round_trip(fam::arith(true))
}
fn text_mem() {
    round_trip(fam::mem(true))
}
fn text_flow() {
    round_trip(fam::flow(true))
}
fn text_call() {
    round_trip(fam::call(true))
}
fn text_names() {
    round_trip(fam::names(true, false))
}
fn text_names3() {
    round_trip(fam::names(true, true))
}
fn text_types() {
    round_trip(fam::types(true, 1))
}
fn text_types2() {
    round_trip(fam::types(true, 2))
}
fn text_long() {
    round_trip(fam::long(true))
}

/// A program around one integer.
fn int_prog(k: i32) -> Program {
    let mut p = Program::new();
    let f = p.new_func_def("@f".into(), vec![], i32t());
    let m = p.func_mut(f);
    let d = m.dfg_mut();
    let e = d.new_bb().basic_block(None);
    let k = d.new_value().integer(k);
    let r = d.new_value().ret(Some(k));
    m.layout_mut().bbs_mut().push_key_back(e).unwrap();
    m.layout_mut().bb_mut(e).insts_mut().push_key_back(r).unwrap();
    p
}

fn int_at(p: &Program) -> i32 {
    let f = p.func(p.func_layout()[0]);
    let b = f.layout().bbs().keys().next().unwrap();
    let r = f.layout().bbs().node(b).unwrap().insts().keys().next().unwrap();
    match f.dfg().value(*r).kind() {
        ValueKind::Return(r) => match f.dfg().value(r.value().unwrap()).kind() {
            ValueKind::Integer(i) => i.value(),
            _ => panic!(),
        },
        _ => panic!(),
    }
}

fn ints(lo: i32, hi: i32) {
    let k = sym::i32();
    sym::assume(k >= lo && k <= hi);
    let t = koopa_text(&int_prog(k));
    match parse(&t[..]) {
        Some(q) => {
            sym::check(int_at(&q) == k, "read back: another integer");
            sym::reach(0);
        }
        None => sym::check(false, "the text of an integer is not accepted"),
    }
}

fn text_ints() {
    match sym::pick(4) {
        0 => ints(-999, 999),
        1 => ints(i32::MIN, i32::MIN + 9),
        2 => ints(i32::MAX - 9, i32::MAX),
        _ => ints(-10_000_009, -9_999_990),
    }
}
fn text_ints5() {
    ints(-99_999, 99_999)
}

fn text_ops() {
    round_trip(fam::ops(true, false))
}
fn text_ops2() {
    round_trip(fam::ops(true, true))
}

fn text_many() {
    round_trip(fam::many(true));
}

fn text_aggs() {
    round_trip(fam::aggs(true));
}

fn text_huge() {
    round_trip(fam::huge(true));
}

crate::harnesses! {
    text_huge
    text_many text_aggs
    text_ops text_ops2
    text_ints text_ints5
    text_arith text_mem text_flow text_call text_names text_names3 text_types text_types2 text_long
}
