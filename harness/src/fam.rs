//! Families of valid programs, by choices. Those with `text` stay within what
//! the text form can say.
use crate::sym;
use crate::util::*;
use koopa::ir::builder_traits::*;
use koopa::ir::*;

pub struct Prog {
    pub p: Program,
    /// The function to run, its number of arguments and the bound for runs.
    pub at: usize,
    pub args: usize,
    pub fuel: usize,
}

pub fn of<T: Clone>(v: &[T]) -> T {
    v[sym::pick(v.len())].clone()
}

/// An arithmetic instruction on parameters and constants, another one on its result.
pub fn arith(_text: bool) -> Prog {
    let mut p = Program::new();
    let f = p.new_func_def_with_param_names(
        "@f".into(),
        vec![(Some("@a".into()), i32t()), (None, i32t())],
        i32t(),
    );
    let fd = p.func_mut(f);
    let (a, b) = (fd.params()[0], fd.params()[1]);
    let e = fd.dfg_mut().new_bb().basic_block(Some("%entry".into()));
    let op = of(&OPS);
    let k = of(&[0, 1, -1, 31, i32::MIN, i32::MAX]);
    let c = fd.dfg_mut().new_value().integer(k);
    let (l, r) = of(&[(a, b), (b, a), (a, a), (a, c), (c, b)]);
    let x = fd.dfg_mut().new_value().binary(op, l, r);
    let (op2, l, r) = of(&[
        (BinaryOp::Sub, x, a),
        (BinaryOp::Sub, b, x),
        (BinaryOp::Lt, x, b),
        (BinaryOp::NotEq, x, c),
    ]);
    let y = fd.dfg_mut().new_value().binary(op2, l, r);
    let ret = fd.dfg_mut().new_value().ret(Some(y));
    fd.layout_mut().bbs_mut().push_key_back(e).unwrap();
    fd.layout_mut().bb_mut(e).insts_mut().extend([x, y, ret]);
    Prog { p, at: 0, args: 2, fuel: 10 }
}

/// One global of each shape, a store through some pointer and a load.
pub fn mem(_text: bool) -> Prog {
    let mut p = Program::new();
    let i2 = Type::get_array(i32t(), 2);
    let i22 = Type::get_array(i2.clone(), 2);
    // the global
    let init = match sym::pick(7) {
        0 => p.new_value().zero_init(i22.clone()),
        1 => p.new_value().undef(i22.clone()),
        n => {
            let x = p.new_value().integer(5);
            let y = p.new_value().integer(i32::MIN);
            let u = p.new_value().undef(i32t());
            let row = p.new_value().aggregate(vec![x, y]);
            let other = match n {
                2 => row,
                3 => p.new_value().zero_init(i2.clone()),
                4 => p.new_value().undef(i2.clone()),
                5 => p.new_value().aggregate(vec![y, u]),
                _ => p.new_value().aggregate(vec![y, x]),
            };
            p.new_value().aggregate(if sym::pick(2) == 0 { vec![row, other] } else { vec![other, row] })
        }
    };
    let g = p.new_value().global_alloc(init);
    p.set_value_name(g, of(&[Some("@g".to_string()), None]));
    let gi = p.new_value().integer(7);
    let h = p.new_value().global_alloc(gi);
    p.set_value_name(h, Some("%h".into()));
    let f = p.new_func_def("@f".into(), vec![i32t()], i32t());
    let fd = p.func_mut(f);
    let a = fd.params()[0];
    let e = fd.dfg_mut().new_bb().basic_block(None);
    let mut is = vec![];
    macro_rules! new {
        ($k:ident $($x:expr),*) => {{ let v = fd.dfg_mut().new_value().$k($($x),*); is.push(v); v }};
    }
    macro_rules! cst {
        ($k:ident $($x:expr),*) => { fd.dfg_mut().new_value().$k($($x),*) };
    }
    let one = cst!(integer 1);
    let zero = cst!(integer 0);
    let al = new!(alloc i22.clone());
    let slot = new!(alloc i32t());
    let pp = new!(alloc Type::get_pointer(i32t()));
    new!(store a, slot);
    let (whole, fresh) = of(&[(g, false), (al, true)]);
    let bit = new!(binary BinaryOp::And, a, one);
    if fresh {
        let v = match sym::pick(3) {
            0 => cst!(zero_init i22.clone()),
            1 => {
                let m = cst!(integer - 1);
                let r = cst!(aggregate vec![one, m]);
                let z = cst!(zero_init i2.clone());
                cst!(aggregate vec![r, z])
            }
            _ => {
                let u = cst!(undef i32t());
                let r = cst!(aggregate vec![u, one]);
                cst!(aggregate vec![r, r])
            }
        };
        new!(store v, whole);
    }
    // a row, then an element, reached in one way or another
    let row = match sym::pick(3) {
        0 => new!(get_elem_ptr whole, bit),
        1 => {
            let r = new!(get_elem_ptr whole, one);
            let m = cst!(integer - 1);
            new!(get_ptr r, m)
        }
        _ => {
            let w = new!(get_ptr whole, zero);
            new!(get_elem_ptr w, one)
        }
    };
    let el = match sym::pick(2) {
        0 => new!(get_elem_ptr row, bit),
        _ => {
            let x = new!(get_elem_ptr row, zero);
            new!(get_ptr x, bit)
        }
    };
    match sym::pick(6) {
        0 => {
            new!(store a, el);
        }
        1 => {
            let z = cst!(aggregate vec![one, zero]);
            new!(store z, row);
        }
        2 => {
            let r = new!(load row);
            let other = new!(get_elem_ptr whole, one);
            new!(store r, other);
        }
        3 => {
            new!(store el, pp);
            let q = new!(load pp);
            let v = new!(load slot);
            new!(store v, q);
        }
        4 => {
            let z = cst!(zero_init Type::get_pointer(i32t()));
            new!(store z, pp);
        }
        _ => {
            let u = cst!(undef i32t());
            new!(store u, h);
        }
    }
    let x = new!(load el);
    let y = new!(load h);
    let s = new!(binary BinaryOp::Sub, x, y);
    let r = new!(ret Some(of(&[x, s])));
    let _ = r;
    fd.layout_mut().bbs_mut().push_key_back(e).unwrap();
    fd.layout_mut().bb_mut(e).insts_mut().extend(is);
    Prog { p, at: 0, args: 1, fuel: 10 }
}

/// Blocks with parameters: loops, exchanges, branches with the same target
/// twice, jumps that are not in the layout.
pub fn flow(_text: bool) -> Prog {
    let mut p = Program::new();
    let f = p.new_func_def("@f".into(), vec![i32t(), i32t()], i32t());
    let fd = p.func_mut(f);
    let (a, b) = (fd.params()[0], fd.params()[1]);
    let named = sym::pick(2) == 0;
    let nm = |s: &str| if named { Some(s.to_string()) } else { None };
    let d = fd.dfg_mut();
    let e = d.new_bb().basic_block(nm("%e"));
    let t = d.new_bb().basic_block_with_param_names(nm("%t"), vec![(nm("%x"), i32t()), (nm("%y"), i32t())]);
    let u = d.new_bb().basic_block_with_params(nm("%u"), vec![i32t()]);
    let end = d.new_bb().basic_block(nm("%end"));
    let (x, y) = (d.bb(t).params()[0], d.bb(t).params()[1]);
    let z = d.bb(u).params()[0];
    let one = d.new_value().integer(1);
    let zero = d.new_value().integer(0);
    let add = d.new_value().binary(BinaryOp::Add, x, one);
    let je = match sym::pick(5) {
        0 => d.new_value().jump_with_args(t, vec![a, b]),
        1 => d.new_value().branch_with_args(a, t, end, vec![b, a], vec![]),
        2 => d.new_value().branch_with_args(a, t, u, vec![one, b], vec![b]),
        3 => d.new_value().branch_with_args(b, u, t, vec![zero], vec![a, b]),
        _ => d.new_value().branch_with_args(a, end, t, vec![], vec![a, a]),
    };
    let jt = match sym::pick(5) {
        0 => d.new_value().jump_with_args(u, vec![y]),
        1 => d.new_value().branch_with_args(x, t, u, vec![y, zero], vec![x]),
        2 => d.new_value().branch_with_args(y, t, end, vec![add, zero], vec![]),
        3 => d.new_value().branch(y, end, end),
        _ => d.new_value().branch_with_args(add, end, u, vec![], vec![add]),
    };
    let (iu, ju) = match sym::pick(4) {
        0 => (vec![], d.new_value().ret(Some(z))),
        1 => (vec![], d.new_value().jump(end)),
        2 => (vec![], d.new_value().branch(z, end, end)),
        _ => {
            let s = d.new_value().binary(BinaryOp::Gt, z, a);
            (vec![s], d.new_value().branch_with_args(s, t, end, vec![zero, z], vec![]))
        }
    };
    let re = d.new_value().ret(Some(b));
    // made, but never put into a block
    let loose = sym::pick(3);
    if loose == 1 {
        d.new_value().jump_with_args(t, vec![one, one]);
    } else if loose == 2 {
        d.new_value().branch_with_args(a, u, t, vec![a], vec![b, a]);
    }
    let l = fd.layout_mut();
    if sym::pick(2) == 0 {
        l.bbs_mut().extend([e, t, u, end]);
    } else {
        l.bbs_mut().extend([e, end, u, t]);
    }
    l.bb_mut(e).insts_mut().extend([je]);
    l.bb_mut(t).insts_mut().extend([add, jt]);
    l.bb_mut(u).insts_mut().extend(iu.into_iter().chain([ju]));
    l.bb_mut(end).insts_mut().extend([re]);
    // a block with parameters that nothing jumps to is not a program
    for (blk, ps) in [(t, true), (u, true), (end, false)] {
        if ps {
            let f = p.func(f);
            let reached = f.dfg().bb(blk).used_by().iter().any(|v| f.layout().parent_bb(*v).is_some());
            sym::assume(reached);
        }
    }
    Prog { p, at: 0, args: 2, fuel: 8 }
}

/// Calls of functions that come earlier, later, or from outside.
pub fn call(text: bool) -> Prog {
    let mut p = Program::new();
    let pi = Type::get_pointer(i32t());
    let ext = p.new_func_decl("@ext".into(), vec![i32t(), i32t()], i32t());
    let note = p.new_func_decl("@note".into(), vec![i32t()], Type::get_unit());
    let early = p.new_func_def("@early".into(), vec![pi.clone(), i32t()], Type::get_unit());
    let (i, pp) = (vec![i32t(), i32t()], vec![pi.clone()]);
    // text refers to what comes earlier only
    let (main, late, last);
    if text {
        last = p.new_func_def("@last".into(), pp, pi.clone());
        late = p.new_func_def("@late".into(), i.clone(), i32t());
        main = p.new_func_def("@main".into(), i, i32t());
    } else {
        main = p.new_func_def("@main".into(), i.clone(), i32t());
        late = p.new_func_def("@late".into(), i, i32t());
        last = p.new_func_def("@last".into(), pp, pi.clone());
    }
    {
        // stores twice its argument
        let f = p.func_mut(early);
        let (q, v) = (f.params()[0], f.params()[1]);
        let e = f.dfg_mut().new_bb().basic_block(Some("%entry".into()));
        let d = f.dfg_mut();
        let s = d.new_value().binary(BinaryOp::Add, v, v);
        let st = d.new_value().store(s, q);
        let c = d.new_value().call(note, vec![s]);
        let r = d.new_value().ret(None);
        f.layout_mut().bbs_mut().push_key_back(e).unwrap();
        f.layout_mut().bb_mut(e).insts_mut().extend([s, st, c, r]);
    }
    // assembled with callees known
    let d = p.func_mut(main).dfg_mut();
    let mut is = vec![];
    let _ = d;
    let (x, y) = (p.func(main).params()[0], p.func(main).params()[1]);
    macro_rules! new {
        ($f:ident $k:ident $($x:expr),*) => {{
            let v = p.func_mut($f).dfg_mut().new_value().$k($($x),*); is.push(v); v }};
    }
    let al = new!(main alloc i32t());
    new!(main store x, al);
    let first = of(&[ext, late]);
    let args = of(&[vec![x, y], vec![y, x]]);
    let r1 = new!(main call first, args);
    match sym::pick(3) {
        0 => {
            new!(main call early, vec![al, r1]);
        }
        1 => {
            let q = new!(main call last, vec![al]);
            new!(main call early, vec![q, y]);
        }
        _ => {
            new!(main call note, vec![x]);
        }
    }
    let l1 = new!(main load al);
    let second = of(&[ext, late]);
    let k = p.func_mut(main).dfg_mut().new_value().integer(3);
    let r2 = new!(main call second, vec![l1, k]);
    let s = new!(main binary BinaryOp::Sub, r1, r2);
    new!(main ret Some(s));
    let m = p.func_mut(main);
    let e = m.dfg_mut().new_bb().basic_block(Some("%entry".into()));
    m.layout_mut().bbs_mut().push_key_back(e).unwrap();
    m.layout_mut().bb_mut(e).insts_mut().extend(is.drain(..));
    // @late: calls outside, itself or @main as long as its second argument is not zero
    let (x, y) = (p.func(late).params()[0], p.func(late).params()[1]);
    let one = p.func_mut(late).dfg_mut().new_value().integer(1);
    let zero = p.func_mut(late).dfg_mut().new_value().integer(0);
    let c = new!(late binary BinaryOp::Eq, y, one);
    let to = if text { of(&[ext, late]) } else { of(&[ext, late, main]) };
    let m = p.func_mut(late);
    let e = m.dfg_mut().new_bb().basic_block(None);
    let t = m.dfg_mut().new_bb().basic_block(None);
    let u = m.dfg_mut().new_bb().basic_block(None);
    let br = new!(late branch c, t, u);
    let call = new!(late call to, vec![y, zero]);
    let r1 = new!(late ret Some(call));
    let r2 = new!(late ret Some(x));
    let m = p.func_mut(late);
    m.layout_mut().bbs_mut().extend([e, t, u]);
    m.layout_mut().bb_mut(e).insts_mut().extend([c, br]);
    m.layout_mut().bb_mut(t).insts_mut().extend([call, r1]);
    m.layout_mut().bb_mut(u).insts_mut().extend([r2]);
    // @last gives back its argument
    let q = p.func(last).params()[0];
    let r = p.func_mut(last).dfg_mut().new_value().ret(Some(q));
    let m = p.func_mut(last);
    let e = m.dfg_mut().new_bb().basic_block(None);
    m.layout_mut().bbs_mut().push_key_back(e).unwrap();
    m.layout_mut().bb_mut(e).insts_mut().push_key_back(r).unwrap();
    Prog { p, at: if text { 5 } else { 3 }, args: 2, fuel: 16 }
}

const NAMES: [Option<&str>; 9] = [
    None,
    Some("%0"),
    Some("%1"),
    Some("%3"),
    Some("@a"),
    Some("%a"),
    Some("@a_0"),
    Some("%a_0"),
    Some("@f"),
];

/// Names that collide, in two places (three with `more`).
pub fn names(text: bool, more: bool) -> Prog {
    let mut n: [Option<String>; 9] = Default::default();
    // which places have such names
    let i = sym::pick(9);
    let j = sym::pick(9);
    sym::assume(i < j);
    n[i] = of(&NAMES).map(|x| x.to_string());
    n[j] = of(&NAMES).map(|x| x.to_string());
    if more {
        let k = sym::pick(9);
        sym::assume(j < k);
        n[k] = of(&NAMES).map(|x| x.to_string());
    }
    let mut p = Program::new();
    let g0 = p.new_value().integer(7);
    let g = p.new_value().global_alloc(g0);
    p.set_value_name(g, n[0].clone());
    let fname = |s: &Option<String>, d: &str| s.clone().unwrap_or(d.to_string());
    let (f, h);
    if text {
        h = p.new_func_decl(fname(&n[2], "@h"), vec![i32t()], i32t());
        f = p.new_func_def_with_param_names("@f".into(), vec![(n[1].clone(), i32t())], i32t());
    } else {
        f = p.new_func_def_with_param_names("@f".into(), vec![(n[1].clone(), i32t())], i32t());
        h = p.new_func_decl(fname(&n[2], "@h"), vec![i32t()], i32t());
    }
    let a = p.func(f).params()[0];
    let m = p.func_mut(f);
    let d = m.dfg_mut();
    let e = d.new_bb().basic_block(n[3].clone());
    let t = d.new_bb().basic_block_with_param_names(n[4].clone(), vec![(n[5].clone(), i32t())]);
    let u = d.new_bb().basic_block(None);
    let x = d.bb(t).params()[0];
    let ld = d.new_value().load(g);
    d.set_value_name(ld, n[6].clone());
    let cmp = d.new_value().binary(BinaryOp::Gt, ld, a);
    d.set_value_name(cmp, n[7].clone());
    let call = d.new_value().call(h, vec![cmp]);
    d.set_value_name(call, n[8].clone());
    let br = d.new_value().branch_with_args(cmp, t, u, vec![call], vec![]);
    let s = d.new_value().binary(BinaryOp::Sub, x, call);
    let r = d.new_value().ret(Some(s));
    let r2 = d.new_value().ret(Some(cmp));
    let l = m.layout_mut();
    l.bbs_mut().extend([e, t, u]);
    l.bb_mut(u).insts_mut().extend([r2]);
    l.bb_mut(e).insts_mut().extend([ld, cmp, call, br]);
    l.bb_mut(t).insts_mut().extend([s, r]);
    Prog { p, at: if text { 1 } else { 0 }, args: 1, fuel: 10 }
}

fn any_type(depth: usize) -> Type {
    match if depth == 0 { 0 } else { sym::pick(6) } {
        0 => i32t(),
        5 => Type::get_array(any_type(depth - 1), 1),
        1 => Type::get_pointer(any_type(depth - 1)),
        2 => Type::get_array(any_type(depth - 1), 3),
        3 => {
            let r = any_type(depth - 1);
            Type::get_function(vec![any_type(depth - 1), i32t()], r)
        }
        _ => Type::get_function(vec![], Type::get_unit()),
    }
}

/// Values of any type pass through calls, memory and block parameters.
pub fn types(text: bool, depth: usize) -> Prog {
    let mut p = Program::new();
    let t = any_type(depth);
    let (x, aggregate) = match sym::pick(3) {
        0 => (p.new_value().undef(t.clone()), false),
        1 => (p.new_value().zero_init(t.clone()), false),
        _ => {
            let u = p.new_value().undef(t.clone());
            let z = p.new_value().zero_init(t.clone());
            (p.new_value().aggregate(vec![u, z]), true)
        }
    };
    let t = if aggregate { Type::get_array(t, 2) } else { t };
    let g = p.new_value().global_alloc(x);
    let dec = p.new_func_decl("@dec".into(), vec![t.clone(), Type::get_pointer(t.clone())], t.clone());
    let (f, h);
    if text {
        h = p.new_func_def("@h".into(), vec![t.clone(), i32t()], t.clone());
        f = p.new_func_def("@f".into(), vec![i32t()], i32t());
    } else {
        f = p.new_func_def("@f".into(), vec![i32t()], i32t());
        h = p.new_func_def("@h".into(), vec![t.clone(), i32t()], t.clone());
    }
    let fd = p.func_mut(f);
    let a = fd.params()[0];
    let d = fd.dfg_mut();
    let e = d.new_bb().basic_block(None);
    let b = d.new_bb().basic_block_with_params(None, vec![t.clone(), i32t(), t.clone()]);
    let ps = d.bb(b).params().to_vec();
    let l = d.new_value().load(g);
    let u = d.new_value().undef(t.clone());
    let agg = if let TypeKind::Array(base, n) = t.kind() {
        let es = (0..*n).map(|_| d.new_value().undef(base.clone())).collect();
        d.new_value().aggregate(es)
    } else {
        d.new_value().zero_init(t.clone())
    };
    let c = d.new_value().call(dec, vec![u, g]);
    let one = d.new_value().integer(1);
    let z = d.new_value().zero_init(t.clone());
    let br = d.new_value().jump_with_args(b, if text { vec![of(&[l, c]), one, of(&[u, c])] } else { vec![of(&[l, c, agg]), one, of(&[agg, z])] });
    let c2 = d.new_value().call(h, vec![ps[0], a]);
    let al = d.new_value().alloc(t.clone());
    let st = d.new_value().store(c2, al);
    let l2 = d.new_value().load(al);
    let c3 = d.new_value().call(dec, vec![l2, g]);
    let st2 = d.new_value().store(ps[2], g);
    let r = d.new_value().ret(Some(ps[1]));
    let l0 = fd.layout_mut();
    l0.bbs_mut().extend([e, b]);
    l0.bb_mut(e).insts_mut().extend([l, c, br]);
    l0.bb_mut(b).insts_mut().extend([c2, al, st, l2, c3, st2, r]);
    let hd = p.func_mut(h);
    let x = hd.params()[0];
    let d = hd.dfg_mut();
    let e = d.new_bb().basic_block(None);
    let r = d.new_value().ret(Some(x));
    hd.layout_mut().bbs_mut().push_key_back(e).unwrap();
    hd.layout_mut().bb_mut(e).insts_mut().push_key_back(r).unwrap();
    Prog { p, at: if text { 2 } else { 1 }, args: 1, fuel: 10 }
}

/// Every instruction once; one of its operands (two with `more`) is of another
/// sort: a parameter, a result, a constant, undefined.
pub fn ops(text: bool, more: bool) -> Prog {
    const N: usize = 17;
    let mut pick = [99usize; N];
    let i = sym::pick(N);
    pick[i] = sym::pick(8);
    if more {
        let j = sym::pick(N);
        sym::assume(i < j);
        pick[j] = sym::pick(8);
    }
    let mut p = Program::new();
    let three = p.new_value().integer(3);
    let g = p.new_value().global_alloc(three);
    p.set_value_name(g, Some("@g".into()));
    let z = p.new_value().zero_init(Type::get_array(i32t(), 3));
    let arr = p.new_value().global_alloc(z);
    let ext = p.new_func_decl("@ext".into(), vec![i32t(), i32t()], i32t());
    let f = p.new_func_def_with_param_names("@f".into(), vec![(Some("@a".into()), i32t()), (None, i32t())], i32t());
    let fd = p.func_mut(f);
    let (a, b) = (fd.params()[0], fd.params()[1]);
    let d = fd.dfg_mut();
    let e = d.new_bb().basic_block(Some("%e".into()));
    // two blocks with parameters of the same types, or of different numbers
    let odd = sym::pick(2) == 1;
    let t = d.new_bb().basic_block_with_params(Some("%t".into()), if odd { vec![i32t()] } else { vec![i32t(), i32t()] });
    let u = d.new_bb().basic_block_with_params(None, vec![i32t(), i32t()]);
    let (x, y) = (d.bb(t).params()[0], *d.bb(t).params().last().unwrap());
    let (q, w) = (d.bb(u).params()[0], d.bb(u).params()[1]);
    let minus = d.new_value().integer(-7);
    let none = d.new_value().integer(0);
    let one = d.new_value().integer(1);
    let und = d.new_value().undef(i32t());
    // what one may write instead, where values of the block can be used
    let at = |n: usize, usual: Value, more: [Value; 3]| match pick[n] {
        0 => a,
        1 => b,
        2 => minus,
        3 => none,
        4 => und,
        5 => more[0],
        6 => more[1],
        7 => more[2],
        _ => usual,
    };
    // programs to be run have only indices of a few values
    let mask = |n: usize| !text && matches!(pick[n], 0 | 1 | 5 | 6 | 7);
    let ld = d.new_value().load(g);
    let small = d.new_value().binary(BinaryOp::And, a, one);
    let slot = d.new_value().alloc(i32t());
    let here = [ld, one, a];
    let (l, r) = (at(0, a, here), at(1, ld, here));
    let bin = d.new_value().binary(BinaryOp::Sub, l, r);
    d.set_value_name(bin, Some("%bin".into()));
    let here = [ld, bin, one];
    let s = at(2, bin, here);
    let st = d.new_value().store(s, slot);
    let k = if mask(3) { small } else { at(3, none, here) };
    let gp = d.new_value().get_ptr(slot, k);
    let k = if mask(4) { small } else { at(4, one, here) };
    let ge = d.new_value().get_elem_ptr(arr, k);
    let (l, r) = (at(5, bin, here), at(6, b, here));
    let call = d.new_value().call(ext, vec![l, r]);
    let here = [ld, bin, call];
    let s = at(7, call, here);
    let st2 = d.new_value().store(s, ge);
    let ld2 = d.new_value().load(gp);
    let here = [ld2, bin, call];
    let c = at(8, call, here);
    let ts = if odd { vec![at(9, ld2, here)] } else { vec![at(9, ld2, here), at(10, b, here)] };
    let us = vec![at(11, bin, here), at(12, a, here)];
    let br = d.new_value().branch_with_args(c, t, u, ts, us);
    let here = [x, y, ld2];
    let js = vec![at(13, y, here), at(14, x, here)];
    let ju = d.new_value().jump_with_args(u, js);
    let l = at(15, q, [w, bin, ld2]);
    let diff = d.new_value().binary(BinaryOp::Lt, l, w);
    let k = at(16, diff, [diff, q, ld2]);
    let ret = d.new_value().ret(Some(k));
    let l = fd.layout_mut();
    l.bbs_mut().extend([e, t, u]);
    l.bb_mut(e).insts_mut().extend([ld, small, slot, bin, st, gp, ge, call, st2, ld2, br]);
    l.bb_mut(t).insts_mut().extend([ju]);
    l.bb_mut(u).insts_mut().extend([diff, ret]);
    Prog { p, at: 1, args: 2, fuel: 10 }
}

/// Names around the limit of LLVM identifiers.
pub fn long(_text: bool) -> Prog {
    let long = |n: usize, end: &str| {
        let mut s = String::from(of(&["@", "%"]));
        while s.len() + end.len() < n {
            s.push('x');
        }
        s.push_str(end);
        s
    };
    if sym::pick(2) == 1 {
        // functions keep their names up to the limit
        let lens = [20usize, 33, 63, 64, 65, 100, 128, 129, 200, 255, 256, 257, 400, 511, 512, 513];
        let name = |n: usize, end: &str| format!("@{}{}", "y".repeat(n - 1 - end.len()), end);
        let mut p = Program::new();
        let l = of(&lens);
        let g = p.new_func_decl(name(if sym::pick(2) == 1 { l } else { 20 }, "g"), vec![i32t()], i32t());
        let f = p.new_func_def(name(l, "f"), vec![i32t()], i32t());
        let fd = p.func_mut(f);
        let a = fd.params()[0];
        let d = fd.dfg_mut();
        let e = d.new_bb().basic_block(None);
        let x = d.new_value().call(g, vec![a]);
        let r = d.new_value().ret(Some(x));
        fd.layout_mut().bbs_mut().push_key_back(e).unwrap();
        fd.layout_mut().bb_mut(e).insts_mut().extend([x, r]);
        return Prog { p, at: 1, args: 1, fuel: 10 };
    }
    let n = 510 + sym::pick(6);
    let m = 510 + sym::pick(6);
    let (s, t) = (long(n, "1"), long(m, "2"));
    let mut p = Program::new();
    let f = p.new_func_def_with_param_names("@f".into(), vec![(Some(s), i32t())], i32t());
    let fd = p.func_mut(f);
    let a = fd.params()[0];
    let d = fd.dfg_mut();
    let e = d.new_bb().basic_block(Some("%e".into()));
    let x = d.new_value().binary(BinaryOp::Add, a, a);
    d.set_value_name(x, Some(t));
    let y = d.new_value().binary(BinaryOp::Sub, x, a);
    let r = d.new_value().ret(Some(y));
    fd.layout_mut().bbs_mut().push_key_back(e).unwrap();
    fd.layout_mut().bb_mut(e).insts_mut().extend([x, y, r]);
    Prog { p, at: 0, args: 1, fuel: 10 }
}


/// Aggregates of up to nine elements, one of which is of another sort, wherever one can be written.
pub fn aggs(text: bool) -> Prog {
    let n = of(&[1usize, 2, 3, 4, 5, 6, 8, 9]);
    let odd = sym::pick(n);
    let kind = sym::pick(6);
    let nested = sym::pick(2) == 1;
    let place = sym::pick(if text { 2 } else { 7 });
    let mut p = Program::new();
    macro_rules! agg {
        ($b:ident) => {{
            let row = Type::get_array(i32t(), 2);
            let es = (0..n)
                .map(|i| {
                    let plain = $b.new_value().integer(10 + i as i32);
                    let one = if i != odd {
                        plain
                    } else {
                        match kind {
                            0 => $b.new_value().undef(if nested { row.clone() } else { i32t() }),
                            1 => $b.new_value().zero_init(if nested { row.clone() } else { i32t() }),
                            2 => $b.new_value().integer(-1),
                            3 => $b.new_value().integer(i32::MIN),
                            4 => $b.new_value().integer(0),
                            _ => plain,
                        }
                    };
                    if !nested || i == odd && kind < 2 {
                        one
                    } else if kind == 5 && i == odd {
                        let u = $b.new_value().undef(i32t());
                        $b.new_value().aggregate(vec![u, one])
                    } else {
                        $b.new_value().aggregate(vec![one, plain])
                    }
                })
                .collect();
            $b.new_value().aggregate(es)
        }};
    }
    let t = Type::get_array(if nested { Type::get_array(i32t(), 2) } else { i32t() }, n);
    let init = if place == 0 { agg!(p) } else { p.new_value().zero_init(t.clone()) };
    let g = p.new_value().global_alloc(init);
    p.set_value_name(g, Some("@g".into()));
    let h = p.new_func_def("@h".into(), vec![t.clone()], t.clone());
    let f = p.new_func_def("@f".into(), vec![i32t()], i32t());
    // a function that gives back what it gets, or the aggregate
    let hd = p.func_mut(h);
    let x = hd.params()[0];
    let d = hd.dfg_mut();
    let e = d.new_bb().basic_block(None);
    let v = if place == 6 { agg!(d) } else { x };
    let r = d.new_value().ret(Some(v));
    hd.layout_mut().bbs_mut().push_key_back(e).unwrap();
    hd.layout_mut().bb_mut(e).insts_mut().push_key_back(r).unwrap();
    let fd = p.func_mut(f);
    let a = fd.params()[0];
    let d = fd.dfg_mut();
    let e = d.new_bb().basic_block(Some("%e".into()));
    let b = d.new_bb().basic_block_with_params(Some("%b".into()), vec![t.clone()]);
    let c = d.new_bb().basic_block_with_params(None, vec![t.clone()]);
    let (x, y) = (d.bb(b).params()[0], d.bb(c).params()[0]);
    let l = d.new_value().load(g);
    let v = if place == 5 { agg!(d) } else { l };
    let call = d.new_value().call(h, vec![v]);
    let (ta, fa) = (if place == 2 { agg!(d) } else { call }, if place == 3 { agg!(d) } else { l });
    let br = d.new_value().branch_with_args(a, b, c, vec![ta], vec![fa]);
    let v = if place == 4 { agg!(d) } else { x };
    let jmp = d.new_value().jump_with_args(c, vec![v]);
    let al = d.new_value().alloc(t);
    let v = if place == 1 { agg!(d) } else { y };
    let st = d.new_value().store(v, al);
    let st2 = d.new_value().store(y, g);
    let at = d.new_value().integer(if kind == 0 && n > 1 { (odd + 1) % n } else { odd } as i32);
    let mut insts = vec![al, st, st2];
    let mut q = d.new_value().get_elem_ptr(al, at);
    insts.push(q);
    if nested {
        let i = d.new_value().integer(1);
        q = d.new_value().get_elem_ptr(q, i);
        insts.push(q);
    }
    let ld = d.new_value().load(q);
    let r = d.new_value().ret(Some(ld));
    insts.extend([ld, r]);
    let lay = fd.layout_mut();
    lay.bbs_mut().extend([e, b, c]);
    lay.bb_mut(e).insts_mut().extend([l, call, br]);
    lay.bb_mut(b).insts_mut().extend([jmp]);
    lay.bb_mut(c).insts_mut().extend(insts);
    Prog { p, at: 1, args: 1, fuel: 10 }
}

/// A dozen of everything, named in one way or another.
pub fn many(text: bool) -> Prog {
    let n = 11 + sym::pick(2);
    let way = sym::pick(6);
    let mut k = 0;
    // local names; those of blocks and values count together
    let mut local = move || {
        k += 1;
        match way {
            0 => None,
            1 => Some("%x".to_string()),
            2 => Some(format!("%{}", 60 - k)),
            3 => Some(format!("%x_{}", k % 13)),
            4 => (k % 3 != 0).then(|| format!("%{}", k / 3)),
            _ => Some(if k % 2 == 0 { "%x".to_string() } else { format!("%x_{}", k / 4) }),
        }
    };
    let global = |i: usize| match way {
        0 => None,
        1 => Some("@x".to_string()),
        2 => Some(format!("@x_{}", 30 - i)),
        3 => Some(format!("@x_{}", i % 3)),
        4 => (i % 3 != 0).then(|| format!("@{}y", "x".repeat(i))),
        _ => Some(if i % 2 == 0 { "@x".to_string() } else { format!("@x_{}", i / 2) }),
    };
    let mut p = Program::new();
    let mut globals = vec![];
    for i in 0..n {
        let mut es = vec![];
        for j in 0..n {
            es.push(p.new_value().integer((i * 100 + j) as i32));
        }
        let init = p.new_value().aggregate(es);
        let g = p.new_value().global_alloc(init);
        p.set_value_name(g, global(i));
        globals.push(g);
    }
    let mut exts = vec![];
    for i in 0..n {
        let name = global(i + n).unwrap_or(format!("@ext{}", i));
        exts.push(p.new_func_decl(name, vec![i32t(); i + 1], i32t()));
    }
    let params = (0..n).map(|_| (local(), i32t())).collect();
    let f = p.new_func_def_with_param_names(if way == 1 { "@x" } else { "@f" }.into(), params, i32t());
    let at = exts.len();
    let fd = p.func_mut(f);
    let ps = fd.params().to_vec();
    let d = fd.dfg_mut();
    let bbs: Vec<BasicBlock> = (0..n).map(|_| d.new_bb().basic_block(local())).collect();
    let bp = (0..n).map(|_| (local(), i32t())).collect();
    let t = d.new_bb().basic_block_with_param_names(local(), bp);
    let tp = d.bb(t).params().to_vec();
    let mut insts: Vec<Vec<Value>> = vec![];
    for i in 0..n {
        // the arguments, turned
        let args: Vec<Value> = (0..n).map(|j| ps[(i + j) % n]).collect();
        insts.push(vec![if i + 1 == n {
            d.new_value().jump_with_args(t, args)
        } else {
            d.new_value().branch_with_args(ps[i], t, bbs[i + 1], args, vec![])
        }]);
    }
    let mut last = vec![];
    let mut sum = tp[0];
    for x in &tp[1..] {
        sum = d.new_value().binary(BinaryOp::Sub, sum, *x);
        d.set_value_name(sum, local());
        last.push(sum);
    }
    let which = of(&[0, 9, n - 1]);
    let index = d.new_value().integer(which as i32);
    let ptr = d.new_value().get_elem_ptr(globals[which], index);
    let ld = d.new_value().load(ptr);
    let args = tp[..which + 1].to_vec();
    let call = d.new_value().call(exts[which], args);
    let res = d.new_value().binary(BinaryOp::Add, call, ld);
    let res2 = d.new_value().binary(BinaryOp::Xor, res, sum);
    let ret = d.new_value().ret(Some(res2));
    for v in [ptr, ld, call, res, res2] {
        d.set_value_name(v, local());
        last.push(v);
    }
    last.push(ret);
    insts.push(last);
    let _ = text;
    let l = fd.layout_mut();
    l.bbs_mut().extend(bbs.iter().copied().chain([t]));
    for (b, i) in bbs.iter().chain([&t]).zip(insts) {
        l.bb_mut(*b).insts_mut().extend(i);
    }
    Prog { p, at, args: n, fuel: 2 * n }
}

/// Up to 300 of one sort of thing.
pub fn huge(text: bool) -> Prog {
    let _ = text;
    let n = of(&[17usize, 33, 65, 129, 256, 257, 300]);
    let kind = sym::pick(13);
    // no names, names of their own, or the names of functions that come later
    let named = sym::pick(3);
    let name = |c: char, i: usize| match named {
        0 => None,
        2 if i >= 1000 => Some(format!("@{}{}", if i % 2 == 0 { 'f' } else { 'x' }, n - 1 - i % 1000 % n)),
        _ => Some(format!("{}n{}", c, i)),
    };
    let many = |k: usize| if kind == k { n } else { 1 };
    let mut p = Program::new();
    let mut globals = vec![];
    for i in 0..many(0) {
        let len = if i == 0 { many(1) } else { 1 };
        let es = (0..len).map(|j| p.new_value().integer((i * 7 + j * 3) as i32 + 5)).collect();
        let init = p.new_value().aggregate(es);
        let g = p.new_value().global_alloc(init);
        p.set_value_name(g, name('@', i));
        globals.push(g);
    }
    let mut exts = vec![];
    for i in 0..many(2) {
        let len = if i == 0 { many(3) } else { 1 };
        exts.push(p.new_func_decl(format!("@x{}", i), vec![i32t(); len], i32t()));
    }
    // the functions that are defined, each calls the one before
    let mut at = exts.len();
    let mut before = exts[0];
    let mut before_len = many(3);
    for i in 0..many(12) {
        let last = i + 1 == many(12);
        let np = if last { many(4) } else { 1 };
        let params = (0..np).map(|i| (name('%', i + 1000), i32t())).collect();
        let f = p.new_func_def_with_param_names(format!("@f{}", i), params, i32t());
        let fd = p.func_mut(f);
        let ps = fd.params().to_vec();
        let d = fd.dfg_mut();
        let mut k = 0;
        let mut put = |d: &mut koopa::ir::dfg::DataFlowGraph, v: Value| {
            k += 1;
            d.set_value_name(v, name('@', k + 2000));
            v
        };
        let mut blocks: Vec<(BasicBlock, Vec<Value>)> = vec![];
        let e = d.new_bb().basic_block(name('%', 1));
        blocks.push((e, vec![]));
        let mut insts = vec![];
        let mut sum = ps[0];
        for q in &ps[1..] {
            sum = d.new_value().binary(BinaryOp::Sub, *q, sum);
            insts.push(put(d, sum));
        }
        // instructions in a row, and uses of one value
        for j in 0..many(5) {
            let c = d.new_value().integer(j as i32);
            sum = d.new_value().binary(BinaryOp::Xor, c, sum);
            insts.push(put(d, sum));
        }
        for _ in 0..many(6) {
            let x = d.new_value().binary(BinaryOp::Sub, ps[0], sum);
            sum = x;
            insts.push(put(d, x));
        }
        if last {
            // an element far inside, and the last global
            let ix = d.new_value().integer(many(1) as i32 - 1);
            let el = d.new_value().get_elem_ptr(globals[0], ix);
            insts.push(put(d, el));
            let ld = d.new_value().load(el);
            insts.push(put(d, ld));
            let zero = d.new_value().integer(0);
            let el = d.new_value().get_elem_ptr(globals[many(0) - 1], zero);
            insts.push(put(d, el));
            let ld2 = d.new_value().load(el);
            insts.push(put(d, ld2));
            for x in [ld, ld2] {
                sum = d.new_value().binary(BinaryOp::Add, sum, x);
                insts.push(put(d, sum));
            }
        }
        let args = (0..before_len).map(|j| if j % 2 == 0 { ps[j % ps.len()] } else { sum }).collect();
        let call = d.new_value().call(before, args);
        insts.push(put(d, call));
        sum = d.new_value().binary(BinaryOp::Sub, sum, call);
        insts.push(put(d, sum));
        if last && kind == 2 {
            let call = d.new_value().call(exts[n - 1], vec![sum]);
            insts.push(put(d, call));
            sum = call;
        }
        // blocks in a row, with parameters
        let nb = if last { many(7) } else { 1 };
        for b in 0..nb {
            let np = if b == 0 && last { many(8) } else { 1 };
            let params = (0..np).map(|i| (name('%', b * 1000 + i + 5000), i32t())).collect();
            let t = d.new_bb().basic_block_with_param_names(name('%', b + 2), params);
            let tp = d.bb(t).params().to_vec();
            let args = (0..np).map(|j| if j % 3 == 1 { ps[0] } else { sum }).collect();
            insts.push(d.new_value().jump_with_args(t, args));
            blocks.last_mut().unwrap().1 = std::mem::take(&mut insts);
            blocks.push((t, vec![]));
            sum = tp[0];
            for q in &tp[1..] {
                sum = d.new_value().binary(BinaryOp::Sub, *q, sum);
                insts.push(put(d, sum));
            }
        }
        // a branch with arguments on either side
        let (nt, nf) = if last { (many(9), many(10)) } else { (1, 1) };
        let mut ends = vec![];
        for (s, np) in [nt, nf].into_iter().enumerate() {
            let params = (0..np).map(|i| (name('%', s * 1000 + i + 900000), i32t())).collect();
            let t = d.new_bb().basic_block_with_param_names(name('%', 700000 + s), params);
            let tp = d.bb(t).params().to_vec();
            let mut sum = tp[0];
            let mut is = vec![];
            for q in &tp[1..] {
                sum = d.new_value().binary(BinaryOp::Sub, *q, sum);
                is.push(put(d, sum));
            }
            is.push(d.new_value().ret(Some(sum)));
            ends.push((t, is));
        }
        let args = |np: usize| (0..np).map(|j| if j % 2 == 1 { ps[0] } else { sum }).collect::<Vec<_>>();
        insts.push(d.new_value().branch_with_args(ps[0], ends[0].0, ends[1].0, args(nt), args(nf)));
        blocks.last_mut().unwrap().1 = insts;
        blocks.extend(ends);
        // values that nothing needs
        let l = fd.layout_mut();
        for (b, is) in blocks {
            l.bbs_mut().push_key_back(b).unwrap();
            l.bb_mut(b).insts_mut().extend(is);
        }
        before = f;
        before_len = 1;
        at = exts.len() + i;
    }
    if kind == 11 {
        // a name of n characters
        let z = p.new_value().integer(1);
        let g = p.new_value().global_alloc(z);
        p.set_value_name(g, Some(format!("@{}", "n".repeat(n - 1))));
    }
    let args = many(4);
    Prog { p, at, args, fuel: 2000 }
}
