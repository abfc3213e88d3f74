//! Handles stay apart, and an edit changes only what it names.
use crate::c04;
use crate::sym;
use crate::util::*;
use koopa::ir::builder_traits::*;
use koopa::ir::entities::ValueData;
use koopa::ir::*;

pub fn same_kind(a: &ValueKind, b: &ValueKind) -> bool {
    let head = match (a, b) {
        (ValueKind::Integer(i), ValueKind::Integer(j)) => i.value() == j.value(),
        (ValueKind::FuncArgRef(i), ValueKind::FuncArgRef(j)) => i.index() == j.index(),
        (ValueKind::BlockArgRef(i), ValueKind::BlockArgRef(j)) => i.index() == j.index(),
        (ValueKind::Binary(i), ValueKind::Binary(j)) => i.op() == j.op(),
        (ValueKind::Branch(i), ValueKind::Branch(j)) => i.true_args().len() == j.true_args().len(),
        (ValueKind::Call(i), ValueKind::Call(j)) => i.callee() == j.callee(),
        (ValueKind::Return(i), ValueKind::Return(j)) => i.value().is_some() == j.value().is_some(),
        (ValueKind::ZeroInit(_), ValueKind::ZeroInit(_))
        | (ValueKind::Undef(_), ValueKind::Undef(_))
        | (ValueKind::Aggregate(_), ValueKind::Aggregate(_))
        | (ValueKind::Alloc(_), ValueKind::Alloc(_))
        | (ValueKind::GlobalAlloc(_), ValueKind::GlobalAlloc(_))
        | (ValueKind::Load(_), ValueKind::Load(_))
        | (ValueKind::Store(_), ValueKind::Store(_))
        | (ValueKind::GetPtr(_), ValueKind::GetPtr(_))
        | (ValueKind::GetElemPtr(_), ValueKind::GetElemPtr(_))
        | (ValueKind::Jump(_), ValueKind::Jump(_)) => true,
        _ => false,
    };
    head && uses(a) == uses(b) && targets(a) == targets(b)
}

fn same_data(a: &ValueData, b: &ValueData) -> bool {
    a.ty() == b.ty() && a.name() == b.name() && same_kind(a.kind(), b.kind())
}

type Bb = (Option<String>, Vec<Value>);

struct Snap {
    globals: Vec<(Value, ValueData)>,
    order: Vec<Value>,
    funcs: Vec<(Function, Fs)>,
}

struct Fs {
    name: String,
    ty: Type,
    params: Vec<Value>,
    vals: Vec<(Value, ValueData)>,
    bbs: Vec<(BasicBlock, Bb)>,
    lay: Vec<(BasicBlock, Vec<Value>)>,
}

fn snap_f(d: &FunctionData) -> Fs {
    Fs {
        name: d.name().into(),
        ty: d.ty().clone(),
        params: d.params().to_vec(),
        vals: d.dfg().values().iter().map(|(v, d)| (*v, d.clone())).collect(),
        bbs: d.dfg().bbs().iter().map(|(b, d)| (*b, (d.name().clone(), d.params().to_vec()))).collect(),
        lay: d.layout().bbs().iter().map(|(b, n)| (*b, n.insts().keys().copied().collect())).collect(),
    }
}

fn snap(p: &Program) -> Snap {
    Snap {
        globals: p.borrow_values().iter().map(|(v, d)| (*v, d.clone())).collect(),
        order: p.inst_layout().to_vec(),
        funcs: p.func_layout().iter().map(|f| (*f, snap_f(p.func(*f)))).collect(),
    }
}

/// Everything `s` holds is still as it was, except what `but` names.
fn unchanged_f(s: &Fs, d: &FunctionData, but: &[Value], but_bb: Option<BasicBlock>, new: usize, new_bb: usize) {
    sym::check(d.name() == s.name && *d.ty() == s.ty && d.params() == &s.params[..], "an edit changes the function itself");
    let mut kept = 0;
    for (v, o) in &s.vals {
        if but.contains(v) {
            kept += d.dfg().values().contains_key(v) as usize;
            continue;
        }
        kept += 1;
        let n = d.dfg().values().get(v);
        sym::check(n.is_some(), "an edit removes another value");
        sym::check(same_data(o, n.unwrap()), "an edit changes another value");
    }
    sym::check(d.dfg().values().len() == kept + new, "an edit leaves more or fewer values than it should");
    let mut kept = 0;
    for (b, o) in &s.bbs {
        if but_bb == Some(*b) {
            kept += d.dfg().bbs().contains_key(b) as usize;
            continue;
        }
        kept += 1;
        let n = d.dfg().bbs().get(b);
        sym::check(n.is_some(), "an edit removes another block");
        let n = n.unwrap();
        sym::check(*n.name() == o.0 && n.params() == &o.1[..], "an edit changes another block");
    }
    sym::check(d.dfg().bbs().len() == kept + new_bb, "an edit leaves more or fewer blocks than it should");
    let lay: Vec<(BasicBlock, Vec<Value>)> =
        d.layout().bbs().iter().map(|(b, n)| (*b, n.insts().keys().copied().collect())).collect();
    sym::check(lay == s.lay, "an edit changes the order of instructions");
}

fn unchanged_p(s: &Snap, p: &Program, but: &[Value], but_f: &[Function], new: usize, new_f: &[Function]) {
    let g = p.borrow_values();
    let mut kept = 0;
    for (v, o) in &s.globals {
        if but.contains(v) {
            kept += g.contains_key(v) as usize;
            continue;
        }
        kept += 1;
        let n = g.get(v);
        sym::check(n.is_some(), "an edit removes another global value");
        sym::check(same_data(o, n.unwrap()), "an edit changes another global value");
    }
    sym::check(g.len() == kept + new, "an edit leaves more or fewer global values than it should");
    let want: Vec<Function> =
        s.funcs.iter().map(|x| x.0).filter(|f| p.funcs().contains_key(f)).chain(new_f.iter().copied()).collect();
    sym::check(p.func_layout() == &want[..] && p.funcs().len() == want.len(), "the list of functions is wrong");
    for (f, d) in &s.funcs {
        if !but_f.contains(f) {
            let n = p.funcs().get(f);
            sym::check(n.is_some(), "an edit removes another function");
            unchanged_f(d, n.unwrap(), &[], None, 0, 0);
        }
    }
}

/// One edit of a function.
fn frame_local() {
    let mut s = c04::start(true);
    let before = snap(&s.z.p);
    let class = sym::pick(5);
    let all: Vec<usize> = (0..c04::KINDS).collect();
    let e = c04::op(&mut s, class, &all, 15);
    let f = s.z.f;
    unchanged_p(&before, &s.z.p, &[], &[f], 0, &[]);
    sym::check(s.z.p.inst_layout() == &before.order[..], "the list of globals is wrong");
    let mut but: Vec<Value> = vec![];
    but.extend(e.value);
    but.extend(e.params);
    let fs = &before.funcs.iter().find(|x| x.0 == f).unwrap().1;
    unchanged_f(fs, s.z.p.func(f), &but, e.bb, e.new, 0);
    if class == 0 {
        let v = e.value.unwrap();
        sym::check(fs.vals.iter().all(|x| x.0 != v), "a new value has the handle of another one");
    }
    sym::reach(class as u32);
}

/// One edit of the program.
fn frame_global() {
    let mut z = zoo();
    let (gi, f) = (z.gi, z.f);
    let d = z.p.func_mut(f).dfg_mut();
    d.set_value_name(z.call, Some("%call".into()));
    let before = snap(&z.p);
    let (mut but, mut butf, mut new, mut newf) = (vec![], vec![], 0, vec![]);
    let mut order = before.order.clone();
    match sym::pick(10) {
        0 => {
            z.p.new_value().integer(sym::i32());
            new = 1;
        }
        1 => {
            let c = z.p.new_value().undef(i32t());
            let g = z.p.new_value().global_alloc(c);
            z.p.set_value_name(g, Some("@gi".into()));
            new = 2;
            order.push(g);
        }
        2 => {
            let c = z.p.new_value().undef(i32t());
            let d = z.p.remove_value(c);
            sym::check(matches!(d.kind(), ValueKind::Undef(_)), "removal returns other data");
        }
        3 => {
            z.p.set_value_name(gi, Some("@x".into()));
            sym::check(z.p.borrow_value(gi).name().as_deref() == Some("@x"), "a global has another name");
            but.push(gi);
        }
        4 => newf.push(z.p.new_func_decl("@n".into(), vec![i32t()], i32t())),
        5 => newf.push(z.p.new_func_def("@n".into(), vec![i32t()], i32t())),
        6 => {
            let k = sym::pick(4);
            let g = [z.f, z.dec, z.two, z.nop][k];
            let name = z.p.func(g).name().to_string();
            let n = z.p.func(g).dfg().values().len();
            let r = z.p.remove_func(g);
            sym::check(r.is_some(), "a function is not removed");
            let r = r.unwrap();
            sym::check(r.name() == name && r.dfg().values().len() == n, "removal returns another function");
            sym::check(!z.p.funcs().contains_key(&g) && !z.p.func_layout().contains(&g), "a removed function is still there");
            sym::check(z.p.remove_func(g).is_none(), "a function is removed twice");
            butf.push(g);
            if g == z.f {
                // nothing that is left uses the globals
                check_uses(&z.p);
                z.p.remove_value(gi);
                but.push(gi);
                order.retain(|x| *x != gi);
                sym::reach(1);
            }
        }
        7 => {
            z.p.func_mut(z.two).set_name("@renamed".into());
            sym::check(z.p.func(z.two).name() == "@renamed", "a function has another name");
            butf.push(z.two);
        }
        8 => {
            // the same names in another function
            let (g, d) = {
                let g = z.two;
                (g, z.p.func_mut(g))
            };
            let bb = d.dfg_mut().new_bb().basic_block(Some("%entry".into()));
            let v = d.dfg_mut().new_value().ret(None);
            d.layout_mut().bbs_mut().extend([bb]);
            d.layout_mut().bb_mut(bb).insts_mut().extend([v]);
            butf.push(g);
            sym::check(d.layout().parent_bb(v) == Some(bb) && d.layout().entry_bb() == Some(bb), "entry block");
        }
        _ => {
            let d = z.p.func_mut(f).dfg_mut();
            d.set_value_name(z.mul, Some("%call".into()));
            d.bb_mut(z.plain).set_name(None);
            let d = z.p.func(f).dfg();
            sym::check(d.value(z.mul).name().as_deref() == Some("%call"), "a value has another name");
            sym::check(d.bb(z.plain).name().is_none(), "a block has another name");
            let fs = &before.funcs.iter().find(|x| x.0 == f).unwrap().1;
            let mul = z.mul;
            unchanged_f(fs, z.p.func(f), &[mul], Some(z.plain), 0, 0);
            butf.push(f);
        }
    }
    unchanged_p(&before, &z.p, &but, &butf, new, &newf);
    sym::check(z.p.inst_layout() == &order[..], "the list of globals is wrong");
    sym::reach(0);
}

/// Handles are never given out twice, whatever is removed in between.
fn handle_run(steps: usize) {
    let mut p = [Program::new(), Program::new()];
    let mut fs: Vec<(usize, Function)> = vec![];
    let mut vals: Vec<Value> = vec![];
    let mut bbs: Vec<BasicBlock> = vec![];
    let mut last: Option<(usize, Function, Value)> = None;
    let mut lastg: Option<(usize, Value)> = None;
    for i in 0..2 {
        let f = p[i].new_func_def("@f".into(), vec![i32t()], i32t());
        vals.extend_from_slice(p[i].func(f).params());
        fs.push((i, f));
    }
    for _ in 0..steps {
        let i = sym::pick(2);
        let f = fs[i].1;
        match sym::pick(6) {
            0 => {
                let v = p[i].new_value().integer(1);
                sym::check(v.is_global(), "a global value counts as local");
                sym::check(!vals.contains(&v), "two values have the same handle");
                vals.push(v);
                lastg = Some((i, v));
            }
            1 => {
                let v = p[i].func_mut(f).dfg_mut().new_value().integer(1);
                sym::check(!v.is_global(), "a local value counts as global");
                sym::check(!vals.contains(&v), "two values have the same handle");
                vals.push(v);
                last = Some((i, f, v));
            }
            2 => {
                let d = p[i].func_mut(f).dfg_mut();
                let b = d.new_bb().basic_block_with_params(None, vec![i32t()]);
                sym::check(!bbs.contains(&b), "two blocks have the same handle");
                bbs.push(b);
                let v = d.bb(b).params()[0];
                sym::check(!v.is_global() && !vals.contains(&v), "two values have the same handle");
                vals.push(v);
                if sym::pick(2) == 1 {
                    d.remove_bb(b);
                }
            }
            3 => {
                let g = p[i].new_func_decl("@g".into(), vec![], i32t());
                sym::check(fs.iter().all(|x| x.1 != g), "two functions have the same handle");
                fs.push((i, g));
                if sym::pick(2) == 1 {
                    sym::check(p[i].remove_func(g).is_some(), "a function is not removed");
                }
            }
            4 => {
                if let Some((i, f, v)) = last.take() {
                    p[i].func_mut(f).dfg_mut().remove_value(v);
                }
            }
            _ => {
                if let Some((i, v)) = lastg.take() {
                    p[i].remove_value(v);
                }
            }
        }
    }
    sym::reach(0);
}

fn handles() {
    handle_run(4)
}
fn handles5() {
    handle_run(5)
}

/// The lists of globals and functions against a model, after every step.
fn list_run(steps: usize) {
    let mut p = Program::new();
    let mut gs: Vec<(Value, Value)> = vec![];
    let mut fs: Vec<Function> = vec![];
    for _ in 0..2 {
        let c = p.new_value().integer(0);
        gs.push((p.new_value().global_alloc(c), c));
    }
    fs.push(p.new_func_decl("@a".into(), vec![], i32t()));
    fs.push(p.new_func_def("@b".into(), vec![], i32t()));
    for _ in 0..steps {
        match sym::pick(5) {
            0 => {
                let c = p.new_value().zero_init(i32t());
                gs.push((p.new_value().global_alloc(c), c));
            }
            1 => fs.push(p.new_func_def("@f".into(), vec![i32t()], i32t())),
            2 if !gs.is_empty() => {
                let (g, c) = gs.remove(sym::pick(gs.len()));
                sym::check(p.remove_value(g).kind().is_global_alloc(), "removal returns other data");
                p.remove_value(c);
            }
            3 if !fs.is_empty() => {
                let f = fs.remove(sym::pick(fs.len()));
                sym::check(p.remove_func(f).is_some(), "a function is not removed");
            }
            _ => {
                // constants are not listed
                let c = p.new_value().integer(sym::i32());
                p.remove_value(c);
            }
        }
        sym::check(p.inst_layout().len() == gs.len(), "the list of globals is wrong");
        sym::check(p.inst_layout().iter().zip(&gs).all(|(a, b)| *a == b.0), "the list of globals is wrong");
        sym::check(p.func_layout() == &fs[..], "the list of functions is wrong");
        sym::check(p.funcs().len() == fs.len() && fs.iter().all(|f| p.funcs().contains_key(f)), "the functions are wrong");
        sym::check(p.borrow_values().len() == 2 * gs.len(), "a global value is missing or left over");
    }
    if gs.len() > 2 && fs.len() > 1 {
        sym::reach(0);
    }
}

fn lists() {
    list_run(4)
}
fn handles6() {
    handle_run(6)
}
fn lists7() {
    list_run(7)
}
fn lists6() {
    list_run(6)
}

/// More than two to the sixteenth handles of one sort, then one more of every sort.
fn handles_many() {
    let n = 66000usize;
    let mut p = Program::new();
    let mut q = Program::new();
    let f = p.new_func_def("@f".into(), vec![], i32t());
    let g = q.new_func_def("@f".into(), vec![], i32t());
    let z = q.new_value().integer(7);
    let first = (q.new_value().global_alloc(z), q.func_mut(g).dfg_mut().new_value().integer(8), q.func_mut(g).dfg_mut().new_bb().basic_block(None));
    match sym::pick(5) {
        0 => {
            for _ in 0..n {
                p.new_value().integer(1);
            }
            sym::check(p.borrow_values().len() == n, "two values have the same handle");
            sym::check(p.borrow_values().keys().all(|v| v.is_global()), "a global value counts as local");
        }
        1 => {
            let d = p.func_mut(f).dfg_mut();
            for _ in 0..n {
                d.new_value().integer(1);
            }
            sym::check(d.values().len() == n, "two values have the same handle");
            sym::check(d.values().keys().all(|v| !v.is_global()), "a local value counts as global");
        }
        2 => {
            let d = p.func_mut(f).dfg_mut();
            for _ in 0..n {
                d.new_bb().basic_block(None);
            }
            sym::check(d.bbs().len() == n, "two blocks have the same handle");
        }
        3 => {
            // made and removed
            let d = p.func_mut(f).dfg_mut();
            for _ in 0..n {
                let v = d.new_value().integer(1);
                d.remove_value(v);
                let b = d.new_bb().basic_block(None);
                d.remove_bb(b);
            }
            sym::check(d.values().is_empty() && d.bbs().is_empty(), "something is left over");
        }
        _ => {
            for _ in 0..n {
                let v = p.new_value().integer(1);
                p.remove_value(v);
            }
            sym::check(p.borrow_values().is_empty(), "something is left over");
        }
    }
    let v = q.new_value().integer(1);
    let d = q.func_mut(g).dfg_mut();
    let (w, b) = (d.new_value().integer(2), d.new_bb().basic_block(None));
    sym::check(v.is_global() && first.0.is_global() && v != first.0 && v != z, "two values have the same handle");
    sym::check(!w.is_global() && !first.1.is_global() && w != first.1, "two values have the same handle");
    sym::check(b != first.2, "two blocks have the same handle");
    sym::check(d.values().len() == 2 && d.bbs().len() == 2 && q.borrow_values().len() == 3, "something is missing");
    sym::reach(0);
}

crate::harnesses! { handles_many frame_local frame_global handles handles5 handles6 lists lists6 lists7 }
