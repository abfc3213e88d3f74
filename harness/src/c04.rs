//! Recorded users after any short history of edits.
use crate::sym;
use crate::util::*;
use koopa::ir::builder_traits::*;
use koopa::ir::entities::ValueData;
use koopa::ir::*;

pub const KINDS: usize = 21;

/// Builds an instruction of kind `k` on any builder.
fn build<B: LocalInstBuilder>(b: B, k: usize, z: &Zoo, i: Value, j: Value, raw: Option<ValueData>) -> Value {
    match k {
        0 => b.integer(sym::i32()),
        1 => b.zero_init(Type::get_array(i32t(), 2)),
        2 => b.undef(i32t()),
        3 => b.aggregate(vec![z.c1, z.c2, z.c1]),
        4 => b.alloc(i32t()),
        5 => b.load(z.gi),
        6 => b.store(i, z.al),
        7 => b.get_ptr(z.gi, i),
        8 => b.get_elem_ptr(z.ga, i),
        9 => b.binary(BinaryOp::Sub, i, j),
        10 => b.branch(i, z.plain, z.plain2),
        11 => b.branch_with_args(i, z.one, z.one2, vec![j], vec![i]),
        12 => b.jump(z.plain),
        13 => b.jump_with_args(z.one, vec![i]),
        14 => b.call(z.two, vec![i, j]),
        15 => b.ret(Some(i)),
        16 => b.ret(None),
        17 => b.store(z.agg, z.arr),
        18 => b.branch(i, z.plain, z.plain),
        19 => b.call(z.nop, vec![]),
        _ => b.raw(raw.unwrap()),
    }
}

fn raw_of(z: &Zoo, k: usize, n: usize) -> Option<ValueData> {
    (k == KINDS - 1).then(|| {
        let from = [z.mul, z.bra, z.call, z.ret, z.st][n];
        sym::assume(z.p.func(z.f).dfg().values().contains_key(&from));
        z.p.func(z.f).dfg().value(from).clone()
    })
}

/// Applies one symbolic change through the accessors of `v`'s kind.
fn mutate(d: &mut ValueData, i: Value, j: Value, z: (BasicBlock, BasicBlock, Function)) {
    let how = sym::pick(4);
    match d.kind_mut() {
        ValueKind::Integer(x) => *x.value_mut() = sym::i32(),
        ValueKind::Aggregate(x) => match how {
            0 => {
                sym::assume(!x.elems().is_empty());
                x.elems_mut()[0] = i
            }
            1 => {
                x.elems_mut().pop();
            }
            2 => x.elems_mut().push(i),
            _ => x.elems_mut().clear(),
        },
        ValueKind::Load(x) => *x.src_mut() = i,
        ValueKind::Store(x) => match how {
            0 => *x.value_mut() = i,
            1 => *x.dest_mut() = j,
            _ => {
                *x.value_mut() = j;
                *x.dest_mut() = j
            }
        },
        ValueKind::GetPtr(x) => match how {
            0 => *x.src_mut() = i,
            1 => *x.index_mut() = j,
            _ => {
                *x.src_mut() = j;
                *x.index_mut() = i
            }
        },
        ValueKind::GetElemPtr(x) => match how {
            0 => *x.src_mut() = i,
            1 => *x.index_mut() = j,
            _ => {
                *x.src_mut() = j;
                *x.index_mut() = i
            }
        },
        ValueKind::Binary(x) => match how {
            0 => *x.lhs_mut() = i,
            1 => *x.rhs_mut() = i,
            2 => {
                *x.lhs_mut() = i;
                *x.rhs_mut() = j
            }
            _ => *x.op_mut() = BinaryOp::Sar,
        },
        ValueKind::Branch(x) => match how {
            0 => *x.cond_mut() = i,
            1 => {
                *x.true_bb_mut() = z.0;
                x.true_args_mut().clear()
            }
            2 => {
                *x.false_bb_mut() = z.1;
                x.false_args_mut().push(j)
            }
            _ => {
                x.true_args_mut().push(i);
                x.false_args_mut().clear();
                *x.true_bb_mut() = z.1;
                *x.false_bb_mut() = z.1
            }
        },
        ValueKind::Jump(x) => match how {
            0 => *x.target_mut() = z.0,
            1 => *x.target_mut() = z.1,
            2 => x.args_mut().push(i),
            _ => {
                x.args_mut().clear();
                x.args_mut().push(j)
            }
        },
        ValueKind::Call(x) => match how {
            0 => x.args_mut().push(i),
            1 => x.args_mut().clear(),
            2 => *x.callee_mut() = z.2,
            _ => {
                x.args_mut().clear();
                x.args_mut().push(i);
                x.args_mut().push(j);
                x.args_mut().push(i)
            }
        },
        ValueKind::Return(x) => match how {
            0 => *x.value_mut() = None,
            _ => *x.value_mut() = Some(i),
        },
        k => {
            // changing the whole kind is as good as changing a part of it
            if how == 0 {
                *k = ValueKind::clone(k)
            }
        }
    }
}

pub struct St {
    pub z: Zoo,
    victims: Vec<Value>,
    operands: Vec<Value>,
    deep: bool,
    fresh: Option<Value>,
}

pub fn start(deep: bool) -> St {
    let z = zoo();
    let victims =
        vec![z.mul, z.bra, z.st, z.call, z.gep, z.jmpa, z.ret, z.agg, z.gp, z.ld, z.al, z.br, z.stagg, z.add, z.jmp];
    let operands = vec![z.a, z.c1, z.gi, z.x];
    check_uses(&z.p);
    St { z, victims, operands, deep, fresh: None }
}

fn blocks_there(z: &Zoo) -> bool {
    let d = z.p.func(z.f).dfg();
    [z.plain, z.plain2, z.one, z.one2].iter().all(|b| d.bbs().contains_key(b))
}

fn expect_gone(p: &Program, users_empty: bool) {
    // the only way past a removal is that nothing used the value
    sym::check(users_empty, "something that is in use was removed");
    check_uses(p);
}

/// What an edit named.
#[derive(Default)]
pub struct Edit {
    pub value: Option<Value>,
    pub params: Vec<Value>,
    pub bb: Option<BasicBlock>,
    pub new: usize,
}

pub fn op(s: &mut St, class: usize, kinds: &[usize], nv: usize) -> Edit {
    let mut e = Edit::default();
    op_(s, class, kinds, nv, &mut e);
    e
}

fn op_(s: &mut St, class: usize, kinds: &[usize], nv: usize, edit: &mut Edit) {
    let f = s.z.f;
    let z = &mut s.z;
    let ints = [z.a, z.c1, z.x, z.y];
    match class {
        0 | 1 => {
            // a new instruction, or one in place of another
            let k = kinds[sym::pick(kinds.len())];
            let i = ints[sym::pick(if s.deep { 4 } else { 2 })];
            let j = ints[if s.deep { sym::pick(2) } else { 1 }];
            let d = z.p.func(f).dfg();
            sym::assume([i, j].iter().all(|v| d.values().contains_key(v)));
            sym::assume(![10, 11, 12, 13, 18].contains(&k) || blocks_there(z));
            let raw = raw_of(z, k, if k == KINDS - 1 { sym::pick(5) } else { 0 });
            if class == 0 {
                let dfg = z.p.func_mut(f).dfg_mut() as *mut koopa::ir::dfg::DataFlowGraph;
                // the builder borrows one part of the program, the operands come from another
                let v = build(unsafe { &mut *dfg }.new_value(), k, z, i, j, raw);
                s.fresh = Some(v);
                edit.value = Some(v);
                edit.new = 1;
                sym::reach(1);
            } else {
                let t = s.victims[sym::pick(nv)];
                sym::assume(t != z.agg || k != 17);
                sym::assume(t != z.al || k != 6);
                sym::assume(raw.as_ref().is_none_or(|r| !uses(r.kind()).contains(&t)));
                let before: Vec<Value> = z.p.func(f).dfg().value(t).used_by().iter().copied().collect();
                let dfg = z.p.func_mut(f).dfg_mut() as *mut koopa::ir::dfg::DataFlowGraph;
                let v = build(unsafe { &mut *dfg }.replace_value_with(t), k, z, i, j, raw);
                edit.value = Some(t);
                sym::check(v == t, "a replaced value changes its identity");
                let after = z.p.func(f).dfg().value(t).used_by();
                sym::check(
                    before.len() == after.len() && before.iter().all(|u| after.contains(u)),
                    "replacing a value loses its users",
                );
                sym::reach(2);
            }
        }
        2 => {
            let t = s.victims[sym::pick(nv)];
            let i = s.operands[sym::pick(if s.deep { 4 } else { 2 })];
            let j = s.operands[2];
            let d = z.p.func(f).dfg();
            sym::assume(i.is_global() || d.values().contains_key(&i));
            sym::assume(targets(d.value(t).kind()).is_empty() || blocks_there(z));
            edit.value = Some(t);
            let bbs = (z.plain, z.one, z.dec);
            let old = z.p.func(f).dfg().value(t);
            let (ty, name) = (old.ty().clone(), old.name().clone());
            let users: Vec<Value> = old.used_by().iter().copied().collect();
            z.p.func_mut(f).dfg_mut().update_value(t, |d| mutate(d, i, j, bbs));
            let d = z.p.func(f).dfg().value(t);
            sym::check(*d.ty() == ty && *d.name() == name, "updating a value changes its type or name");
            sym::check(
                d.used_by().len() == users.len() && users.iter().all(|u| d.used_by().contains(u)),
                "updating a value loses its users",
            );
            sym::reach(3);
        }
        3 => {
            // removal works exactly on what is not used
            let n = sym::pick(nv + 1);
            let t = if n < nv { s.victims[n] } else { s.fresh.unwrap_or(z.c1) };
            sym::assume(z.p.func(f).dfg().values().contains_key(&t));
            let used = z.p.funcs().values().flat_map(|g| g.dfg().values().values()).any(|d| uses(d.kind()).contains(&t));
            if used {
                sym::panic_mode(2);
                sym::reach(4);
                z.p.func_mut(f).dfg_mut().remove_value(t);
            } else {
                edit.value = Some(t);
                let ops = uses(z.p.func(f).dfg().value(t).kind());
                let d = z.p.func_mut(f).dfg_mut().remove_value(t);
                sym::check(uses(d.kind()) == ops, "removal returns other data");
                sym::check(!z.p.func(f).dfg().values().contains_key(&t), "a removed value is still there");
                s.victims.retain(|v| *v != t);
                expect_gone(&z.p, !used);
                sym::reach(5);
            }
        }
        4 => {
            let b = [z.entry, z.plain, z.plain2, z.one, z.one2][sym::pick(5)];
            let fd = z.p.func(f);
            sym::assume(fd.dfg().bbs().contains_key(&b));
            let ps: Vec<Value> = fd.dfg().bb(b).params().to_vec();
            let used = fd.dfg().values().values().any(|d| {
                targets(d.kind()).contains(&b) || uses(d.kind()).iter().any(|u| ps.contains(u))
            });
            if used {
                sym::panic_mode(2);
                sym::reach(6);
                z.p.func_mut(f).dfg_mut().remove_bb(b);
            } else {
                edit.bb = Some(b);
                edit.params = ps.clone();
                z.p.func_mut(f).dfg_mut().remove_bb(b);
                let d = z.p.func(f).dfg();
                sym::check(!d.bbs().contains_key(&b), "a removed block is still there");
                sym::check(ps.iter().all(|p| !d.values().contains_key(p)), "a removed block leaves its parameters behind");
                expect_gone(&z.p, !used);
                sym::reach(7);
            }
        }
        5 => {
            // global values, which instructions of functions use as well
            match sym::pick(5) {
                0 => {
                    let c = z.p.new_value().integer(sym::i32());
                    let a = z.p.new_value().aggregate(vec![c, c]);
                    let g = z.p.new_value().global_alloc(a);
                    let d = z.p.func_mut(f).dfg_mut();
                    let e = d.new_value().get_elem_ptr(g, c);
                    check_uses(&z.p);
                    z.p.func_mut(f).dfg_mut().remove_value(e);
                    check_uses(&z.p);
                    z.p.remove_value(g);
                    check_uses(&z.p);
                    z.p.remove_value(a);
                    z.p.remove_value(c);
                    sym::reach(8);
                }
                1 => {
                    let c = z.p.new_value().integer(sym::i32());
                    let c2 = z.p.new_value().zero_init(i32t());
                    let c3 = z.p.new_value().undef(i32t());
                    let agg = z.p.new_value().aggregate(vec![c, c2, c3, c]);
                    let raw = z.p.borrow_value(agg).clone();
                    let again = z.p.new_value().raw(raw);
                    sym::check(again != agg, "two values are one");
                }
                2 => {
                    let which = [z.gi, z.ga][sym::pick(2)];
                    let used = z.p.func(f).dfg().values().values().any(|d| uses(d.kind()).contains(&which));
                    sym::panic_mode(if used { 2 } else { 0 });
                    let lay = z.p.inst_layout().len();
                    z.p.remove_value(which);
                    if !used {
                        sym::check(!z.p.borrow_values().contains_key(&which), "a removed value is still there");
                        sym::check(
                            z.p.inst_layout().len() + 1 == lay && !z.p.inst_layout().contains(&which),
                            "a removed global is still listed",
                        );
                    }
                    sym::panic_mode(if used { 2 } else { 0 });
                    if which == z.gi {
                        // its initial value goes next
                    }
                }
                3 => {
                    let init = uses(z.p.borrow_value(z.gi).kind())[0];
                    sym::panic_mode(2);
                    z.p.remove_value(init);
                }
                _ => {
                    z.p.set_value_name(z.gi, Some("@other".into()));
                    let d = z.p.func_mut(f).dfg_mut();
                    d.set_value_name(z.add, Some("%named".into()));
                    d.bb_mut(z.plain).set_name(Some("%bb".into()));
                    z.p.func_mut(f).set_name("@g".into());
                }
            }
        }
        _ => {
            // blocks come and go
            let d = z.p.func_mut(f).dfg_mut();
            let n = d.new_bb().basic_block_with_params(Some("%n".into()), vec![i32t(), i32t()]);
            let ps = d.bb(n).params().to_vec();
            let j = d.new_value().jump_with_args(n, vec![ps[1], z.a]);
            let m = d.new_value().binary(BinaryOp::Or, ps[0], ps[0]);
            check_uses(&z.p);
            let d = z.p.func_mut(f).dfg_mut();
            match sym::pick(3) {
                0 => {
                    d.remove_value(j);
                    sym::panic_mode(2);
                    d.remove_bb(n);
                }
                1 => {
                    d.remove_value(m);
                    sym::panic_mode(2);
                    d.remove_bb(n);
                }
                _ => {
                    d.remove_value(m);
                    d.remove_value(j);
                    d.remove_bb(n);
                }
            }
        }
    }
}

/// One edit of every sort, all operands.
fn uses1() {
    let mut s = start(true);
    let class = sym::pick(7);
    let all: Vec<usize> = (0..KINDS).collect();
    op(&mut s, class, &all, 15);
    check_uses(&s.z.p);
}

/// Two edits: every kind, then an edit of what the first one touched.
fn uses2() {
    let mut s = start(false);
    let all: Vec<usize> = (0..KINDS).collect();
    let class = sym::pick(4);
    op(&mut s, class, &all, if class == 1 { 2 } else { 8 });
    check_uses(&s.z.p);
    let class = 1 + sym::pick(4);
    op(&mut s, class, &[0, 9, 11, 13, 14], 4);
    check_uses(&s.z.p);
}

/// Three edits.
fn uses3() {
    let mut s = start(false);
    let all: Vec<usize> = (0..KINDS).collect();
    let class = sym::pick(4);
    op(&mut s, class, &all, if class == 1 { 2 } else { 8 });
    check_uses(&s.z.p);
    for _ in 0..2 {
        let class = 1 + sym::pick(4);
        op(&mut s, class, &[9, 11, 14], 3);
        check_uses(&s.z.p);
    }
}

/// Instructions of up to 40 operands, and values of as many users.
fn uses_wide() {
    let n = [1, 2, 4, 5, 8, 9, 17, 33][sym::pick(8)];
    let k = if n < 6 { sym::pick(n) } else { [0, 1, 3, 4, n / 2, n - 2, n - 1][sym::pick(7)] };
    let mut p = Program::new();
    let c = p.new_func_decl("@c".into(), vec![i32t(); n], i32t());
    let f = p.new_func_def("@f".into(), vec![i32t(); n], i32t());
    let gs: Vec<Value> = (0..n).map(|i| p.new_value().integer(i as i32)).collect();
    let gagg = p.new_value().aggregate(gs.clone());
    let gal = p.new_value().global_alloc(gagg);
    let args = p.func(f).params().to_vec();
    let d = p.func_mut(f).dfg_mut();
    let b1 = d.new_bb().basic_block_with_params(None, vec![i32t(); n]);
    let b2 = d.new_bb().basic_block_with_params(None, vec![i32t(); n]);
    let (p1, p2) = (d.bb(b1).params().to_vec(), d.bb(b2).params().to_vec());
    let call = d.new_value().call(c, args.clone());
    let jump = d.new_value().jump_with_args(b1, p2.clone());
    let br = d.new_value().branch_with_args(args[0], b1, b2, args.clone(), p1.clone());
    let cs: Vec<Value> = (0..n).map(|i| d.new_value().integer(i as i32)).collect();
    let agg = d.new_value().aggregate(cs.clone());
    let users: Vec<Value> = (0..n).map(|_| d.new_value().load(gal)).collect();
    let jumps: Vec<Value> = (0..n).map(|_| d.new_value().jump_with_args(b2, p1.clone())).collect();
    check_uses(&p);
    let d = p.func_mut(f).dfg_mut();
    let x = d.new_value().integer(-1);
    match sym::pick(9) {
        0 => d.update_value(call, |d| match d.kind_mut() {
            ValueKind::Call(c) => c.args_mut()[k] = x,
            _ => (),
        }),
        1 => d.update_value(jump, |d| match d.kind_mut() {
            ValueKind::Jump(j) => j.args_mut().truncate(k),
            _ => (),
        }),
        2 => d.update_value(br, |d| match d.kind_mut() {
            ValueKind::Branch(b) => {
                b.false_args_mut()[k] = x;
                b.true_args_mut().truncate(k);
            }
            _ => (),
        }),
        3 => {
            let mut vs = cs.clone();
            vs[k] = x;
            d.replace_value_with(agg).aggregate(vs);
        }
        4 => {
            let mut vs = p2.clone();
            vs[k] = x;
            d.replace_value_with(br).jump_with_args(b2, vs);
        }
        5 => {
            d.remove_value([call, jump, br, agg][k % 4]);
        }
        6 => {
            for v in &users[..k] {
                d.remove_value(*v);
            }
        }
        7 => {
            for v in &jumps[..k] {
                d.remove_value(*v);
            }
            d.update_value(jumps[k], |d| match d.kind_mut() {
                ValueKind::Jump(j) => *j.target_mut() = b1,
                _ => (),
            })
        }
        _ => {
            for v in users {
                d.remove_value(v);
            }
            p.remove_value(gal);
            p.remove_value(gagg);
            check_uses(&p);
            p.remove_value(gs[k]);
        }
    }
    check_uses(&p);
    sym::reach(0);
}

/// Globals that several functions use; functions that go and come back.
fn uses_funcs() {
    let mut p = Program::new();
    let k = p.new_value().integer(sym::i32());
    let gs = [p.new_value().global_alloc(k), p.new_value().global_alloc(k)];
    let mut fs = vec![];
    for i in 0..3 {
        let f = p.new_func_def(format!("@f{i}"), vec![], Type::get_unit());
        let d = p.func_mut(f).dfg_mut();
        let a = d.new_value().load(gs[0]);
        let b = d.new_value().load(gs[1]);
        d.new_value().store(a, gs[1]);
        d.new_value().store(b, if i == 1 { gs[1] } else { gs[0] });
        if i == 2 {
            // a constant that is not an instruction uses a global one
            d.new_value().aggregate(vec![k]);
        }
        fs.push((f, a));
    }
    check_uses(&p);
    for _ in 0..3 {
        let i = sym::pick(3);
        let (f, a) = fs[i];
        match sym::pick(3) {
            0 => {
                // out and in again
                let data = p.remove_func(f).unwrap();
                check_uses(&p);
                #[allow(deprecated)]
                let f = p.new_func(data);
                fs[i].0 = f;
                sym::reach(1);
            }
            1 => {
                let to = gs[sym::pick(2)];
                p.func_mut(f).dfg_mut().update_value(a, |d| match d.kind_mut() {
                    ValueKind::Load(l) => *l.src_mut() = to,
                    _ => (),
                });
                sym::reach(2);
            }
            _ => {
                // its users are gone with the function
                let data = p.remove_func(f).unwrap();
                check_uses(&p);
                drop(data);
                check_uses(&p);
                let f = p.new_func_def("@g".into(), vec![], Type::get_unit());
                let a = p.func_mut(f).dfg_mut().new_value().load(gs[1]);
                fs[i] = (f, a);
                sym::reach(3);
            }
        }
        check_uses(&p);
    }
    if sym::pick(2) == 1 {
        for (f, _) in fs {
            p.remove_func(f);
        }
        check_uses(&p);
        p.remove_value(gs[0]);
        p.remove_value(gs[1]);
        p.remove_value(k);
        sym::reach(4);
    }
}

crate::harnesses! { uses_wide uses_funcs uses1 uses2 uses3 }
