//! Equality of values is equality of the expressions they stand for.
use crate::sym;
use crate::util::*;
use koopa::ir::builder_traits::*;
use koopa::ir::entities::ValueData;
use koopa::ir::*;

fn get<R>(p: &Program, f: Function, v: Value, g: impl FnOnce(&ValueData) -> R) -> R {
    if v.is_global() {
        g(&p.borrow_value(v))
    } else {
        g(p.func(f).dfg().value(v))
    }
}

fn ty_same(a: &Type, b: &Type) -> bool {
    match (a.kind(), b.kind()) {
        (TypeKind::Int32, TypeKind::Int32) | (TypeKind::Unit, TypeKind::Unit) => true,
        (TypeKind::Array(a, n), TypeKind::Array(b, m)) => n == m && ty_same(a, b),
        (TypeKind::Pointer(a), TypeKind::Pointer(b)) => ty_same(a, b),
        (TypeKind::Function(a, r), TypeKind::Function(b, s)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(x, y)| ty_same(x, y)) && ty_same(r, s)
        }
        _ => false,
    }
}

fn same(p: &Program, f: Function, a: Value, b: Value) -> bool {
    let (x, y) = (get(p, f, a, |d| d.clone()), get(p, f, b, |d| d.clone()));
    if !ty_same(x.ty(), y.ty()) {
        return false;
    }
    let head = match (x.kind(), y.kind()) {
        (ValueKind::Integer(i), ValueKind::Integer(j)) => i.value() == j.value(),
        (ValueKind::ZeroInit(_), ValueKind::ZeroInit(_)) => true,
        (ValueKind::Undef(_), ValueKind::Undef(_)) => true,
        (ValueKind::Aggregate(_), ValueKind::Aggregate(_)) => true,
        (ValueKind::FuncArgRef(i), ValueKind::FuncArgRef(j)) => i.index() == j.index(),
        (ValueKind::BlockArgRef(i), ValueKind::BlockArgRef(j)) => i.index() == j.index(),
        (ValueKind::Alloc(_), ValueKind::Alloc(_)) => true,
        (ValueKind::GlobalAlloc(_), ValueKind::GlobalAlloc(_)) => true,
        (ValueKind::Load(_), ValueKind::Load(_)) => true,
        (ValueKind::Store(_), ValueKind::Store(_)) => true,
        (ValueKind::GetPtr(_), ValueKind::GetPtr(_)) => true,
        (ValueKind::GetElemPtr(_), ValueKind::GetElemPtr(_)) => true,
        (ValueKind::Binary(i), ValueKind::Binary(j)) => i.op() as u8 == j.op() as u8,
        (ValueKind::Branch(i), ValueKind::Branch(j)) => {
            i.true_args().len() == j.true_args().len() && i.false_args().len() == j.false_args().len()
        }
        (ValueKind::Jump(_), ValueKind::Jump(_)) => true,
        (ValueKind::Call(i), ValueKind::Call(j)) => i.callee() == j.callee(),
        (ValueKind::Return(_), ValueKind::Return(_)) => true,
        _ => false,
    };
    if !head || targets(x.kind()) != targets(y.kind()) {
        return false;
    }
    let (u, w) = (uses(x.kind()), uses(y.kind()));
    u.len() == w.len() && u.iter().zip(&w).all(|(a, b)| same(p, f, *a, *b))
}

fn pairs(p: &Program, f: Function, vs: &[Value]) {
    let d = p.func(f).dfg();
    for a in vs {
        for b in vs {
            let want = same(p, f, *a, *b);
            sym::check(d.value_eq(*a, *b) == want, "equality of values is not equality of expressions");
            if !a.is_global() && !b.is_global() {
                sym::check(d.data_eq(d.value(*a), d.value(*b)) == want, "equality of data is not equality of expressions");
                let c = d.value(*b).clone();
                sym::check(d.data_eq(d.value(*a), &c) == want, "a copy of data is not equal to the original");
            }
            if *a != *b {
                sym::reach(want as u32);
            }
        }
    }
}

/// One pair of instructions of the same kind, all operands.
fn eq_inst() {
    let mut z = zoo();
    let f = z.f;
    let g = z.p.new_value().integer(1);
    let d = z.p.func_mut(f).dfg_mut();
    let k1 = d.new_value().integer(sym::i32());
    let k2 = d.new_value().integer(sym::i32());
    let un = d.new_value().undef(i32t());
    let ints = [k1, k2, z.a, z.b, z.x, z.y, un, z.add, g];
    let ptrs = [z.al, z.gp, z.gi, z.gep];
    let arrs = [z.arr, z.ga];
    let kind = sym::pick(14);
    let mut made = vec![];
    for round in 0..2 {
        let i = |n: usize| ints[sym::pick(if round == 0 { n.min(3) } else { n })];
        let b = |xs: &[BasicBlock]| xs[sym::pick(xs.len())];
        let n = |k: usize| d_len(round, k);
        let (bb0, bb1) = ([z.plain, z.plain2], [z.one, z.one2]);
        let v = match kind {
            0 => {
                let (o, l, r) = (if round == 0 { BinaryOp::Sub } else { OPS[sym::pick(17)] }, i(4), i(4));
                d.new_value().binary(o, l, r)
            }
            1 => {
                let q = ptrs[sym::pick(4)];
                d.new_value().load(q)
            }
            2 => {
                let (x, q) = (i(9), ptrs[sym::pick(4)]);
                d.new_value().store(x, q)
            }
            3 => {
                let (x, q) = (i(9), ptrs[sym::pick(3)]);
                d.new_value().get_ptr(q, x)
            }
            4 => {
                let (x, q) = (i(9), arrs[sym::pick(2)]);
                d.new_value().get_elem_ptr(q, x)
            }
            5 => {
                let (x, t, e) = (i(9), b(&bb0), b(&bb0));
                d.new_value().branch(x, t, e)
            }
            6 => {
                let (t, x, y, w) = (sym::pick(2), i(3), i(3), i(3));
                d.new_value().branch_with_args(w, bb1[t], bb1[1 - t], vec![x], vec![y])
            }
            7 => {
                let t = b(&[z.plain, z.plain2, z.entry]);
                d.new_value().jump(t)
            }
            8 => {
                let (t, x) = (b(&bb1), i(9));
                d.new_value().jump_with_args(t, vec![x])
            }
            9 => {
                let (x, y) = (i(4), i(4));
                d.new_value().call(z.two, vec![x, y])
            }
            10 => match sym::pick(3) {
                0 => d.new_value().ret(None),
                _ => {
                    let x = i(9);
                    d.new_value().ret(Some(x))
                }
            },
            11 => {
                let n = 1 + sym::pick(3);
                let es = (0..n).map(|_| [k1, z.c1, z.c2, un][sym::pick(4)]).collect();
                d.new_value().aggregate(es)
            }
            12 => {
                let t = if sym::pick(2) == 0 { i32t() } else { Type::get_array(i32t(), n(2)) };
                match sym::pick(3) {
                    0 => d.new_value().alloc(t),
                    1 => d.new_value().zero_init(t),
                    _ => d.new_value().undef(t),
                }
            }
            _ => match sym::pick(3) {
                0 => d.new_value().call(z.nop, vec![]),
                1 => d.new_value().call(z.dec, vec![z.al]),
                _ => d.new_value().call(z.two, vec![k1, k2]),
            },
        };
        made.push(v);
    }
    pairs(&z.p, f, &made);
}

fn d_len(round: usize, k: usize) -> usize {
    k + round * sym::pick(2)
}

/// Everything in the sample program against everything else.
fn eq_zoo() {
    let mut z = zoo();
    let f = z.f;
    let fresh = sym::i32();
    let g = z.p.new_value().integer(fresh);
    let gg = z.p.new_value().global_alloc(g);
    let d = z.p.func_mut(f).dfg_mut();
    let l = d.new_value().load(gg);
    let s = d.new_value().integer(fresh);
    let k = d.new_value().integer(1);
    let m = d.new_value().binary(BinaryOp::Add, l, s);
    let all = [
        z.gi, z.ga, z.a, z.b, z.x, z.y, z.c1, z.c2, z.al, z.arr, z.ld, z.add, z.mul, z.st, z.stagg, z.agg, z.gp, z.gep,
        z.call, z.br, z.bra, z.jmp, z.jmpa, z.ret, g, gg, l, s, k, m,
    ];
    pairs(&z.p, f, &all);
}

/// Nested expressions over symbolic integers.
fn eq_nest() {
    let mut z = zoo();
    let f = z.f;
    let d = z.p.func_mut(f).dfg_mut();
    let mut roots = vec![];
    for _ in 0..2 {
        let i = d.new_value().integer(sym::i32());
        let j = d.new_value().integer(sym::i32());
        let un = d.new_value().undef(i32t());
        let leaf = [i, j, un];
        let x = d.new_value().binary(BinaryOp::Add, leaf[sym::pick(3)], z.a);
        let y = d.new_value().binary(BinaryOp::Mul, x, leaf[sym::pick(2)]);
        let (s, t) = if sym::pick(2) == 0 { (x, y) } else { (y, x) };
        let r = match sym::pick(4) {
            0 => d.new_value().call(z.two, vec![s, t]),
            1 => d.new_value().branch_with_args(s, z.one, z.one2, vec![t], vec![s]),
            2 => {
                let a = d.new_value().aggregate(vec![i, j, i]);
                let q = d.new_value().aggregate(vec![a, a]);
                q
            }
            _ => d.new_value().ret(Some(t)),
        };
        roots.push(r);
    }
    pairs(&z.p, f, &roots);
}

/// Things that look alike: parameters of equal types, functions of equal types, parameters in
/// places that differ only by number.
fn eq_alike() {
    let mut p = Program::new();
    let i = i32t;
    let sigs = || vec![i(), i(), i()];
    let fns = [
        p.new_func_decl("@u".into(), sigs(), i()),
        p.new_func_decl("@v".into(), sigs(), i()),
        p.new_func_def("@w".into(), sigs(), i()),
    ];
    let f = p.new_func_def("@f".into(), sigs(), i());
    let mut gs = vec![];
    for v in [1, 1, 2] {
        let k = p.new_value().integer(v);
        gs.push(p.new_value().global_alloc(k));
    }
    let args = p.func(f).params().to_vec();
    let d = p.func_mut(f).dfg_mut();
    let b1 = d.new_bb().basic_block_with_params(None, vec![i(), i()]);
    let b2 = d.new_bb().basic_block_with_params(None, vec![i(), i()]);
    let (p1, p2) = (d.bb(b1).params().to_vec(), d.bb(b2).params().to_vec());
    let vals = [args[0], args[1], args[2], p1[0], p1[1], p2[0], p2[1]];
    let kind = sym::pick(6);
    let mut made = vec![];
    for round in 0..2 {
        let v = |n: usize| vals[if round == 0 { n } else { sym::pick(7) }];
        let bb = |n: usize| [b1, b2][if round == 0 { n } else { sym::pick(2) }];
        let x = match kind {
            0 => {
                let (c, a) = (fns[if round == 0 { 0 } else { sym::pick(3) }], v(3));
                d.new_value().call(c, vec![args[0], a, args[1]])
            }
            1 => {
                let (t, a) = (bb(0), v(5));
                d.new_value().jump_with_args(t, vec![a, args[0]])
            }
            2 => {
                let (t, e) = (bb(0), bb(1));
                if t == e {
                    return;
                }
                let a = v(1);
                d.new_value().branch_with_args(args[0], t, e, vec![args[0], args[0]], vec![a, args[0]])
            }
            3 => {
                let g = gs[if round == 0 { 0 } else { sym::pick(3) }];
                d.new_value().load(g)
            }
            4 => {
                let a = v(4);
                d.new_value().ret(Some(a))
            }
            _ => {
                let (a, b) = (v(0), v(6));
                d.new_value().binary(BinaryOp::Sub, a, b)
            }
        };
        made.push(x);
    }
    made.extend(vals);
    made.extend(gs);
    pairs(&p, f, &made);
}

/// Long lists of operands, which differ in one place, and deep expressions.
fn eq_wide() {
    let mut p = Program::new();
    let n = [1, 2, 3, 5, 8, 9, 16, 17, 33, 64][sym::pick(10)];
    let k = sym::pick(n);
    let c = p.new_func_decl("@c".into(), vec![i32t(); n], i32t());
    let f = p.new_func_def("@f".into(), vec![i32t(); 2], i32t());
    let d = p.func_mut(f).dfg_mut();
    let b1 = d.new_bb().basic_block_with_params(None, vec![i32t(); n]);
    let b2 = d.new_bb().basic_block_with_params(None, vec![i32t(); n]);
    let (x, y) = (sym::i32(), sym::i32());
    let kind = sym::pick(6);
    let mut made = vec![];
    for odd in [x, y] {
        let vs: Vec<Value> = (0..n).map(|i| d.new_value().integer(if i == k { odd } else { i as i32 })).collect();
        let same: Vec<Value> = (0..n).map(|i| d.new_value().integer(i as i32)).collect();
        made.push(match kind {
            0 => d.new_value().call(c, vs),
            1 => d.new_value().jump_with_args(b1, vs),
            2 => d.new_value().branch_with_args(same[0], b1, b2, vs, same),
            3 => d.new_value().branch_with_args(same[0], b1, b2, same, vs),
            4 => d.new_value().aggregate(vs),
            _ => {
                // one layer for each operand
                let mut e = vs[0];
                for v in &vs[1..] {
                    e = d.new_value().binary(BinaryOp::Add, e, *v);
                }
                e
            }
        });
    }
    pairs(&p, f, &made);
}

crate::harnesses! { eq_alike eq_wide eq_inst eq_zoo eq_nest }
