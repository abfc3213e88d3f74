//! The order of blocks and instructions against a model made of plain vectors.
use crate::sym;
use crate::util::*;
use koopa::ir::builder_traits::*;
use koopa::ir::layout::Layout;
use koopa::ir::*;

struct St {
    p: Program,
    f: Function,
    bbs: Vec<BasicBlock>,
    insts: Vec<Value>,
    model: Vec<(BasicBlock, Vec<Value>)>,
}

fn start() -> St {
    let mut p = Program::new();
    let f = p.new_func_def("@f".into(), vec![], Type::get_unit());
    let d = p.func_mut(f).dfg_mut();
    let bbs: Vec<BasicBlock> = (0..4).map(|_| d.new_bb().basic_block(None)).collect();
    let insts: Vec<Value> = (0..5).map(|_| d.new_value().alloc(i32t())).collect();
    let l = p.func_mut(f).layout_mut();
    l.bbs_mut().extend([bbs[0], bbs[1], bbs[2]]);
    l.bb_mut(bbs[0]).insts_mut().extend([insts[0], insts[1], insts[2]]);
    l.bb_mut(bbs[1]).insts_mut().extend([insts[3]]);
    let model = vec![
        (bbs[0], vec![insts[0], insts[1], insts[2]]),
        (bbs[1], vec![insts[3]]),
        (bbs[2], vec![]),
    ];
    St { p, f, bbs, insts, model }
}

fn agree(s: &St) {
    let l: &Layout = s.p.func(s.f).layout();
    let keys: Vec<BasicBlock> = l.bbs().keys().copied().collect();
    let want: Vec<BasicBlock> = s.model.iter().map(|m| m.0).collect();
    sym::check(keys == want, "the order of blocks is wrong");
    sym::check(l.bbs().len() == want.len() && l.bbs().is_empty() == want.is_empty(), "the number of blocks is wrong");
    sym::check(l.entry_bb() == want.first().copied(), "the entry block is wrong");
    sym::check(l.bbs().front_key() == want.first() && l.bbs().back_key() == want.last(), "the ends of the list of blocks are wrong");
    let mut back = vec![];
    let mut c = l.bbs().cursor_back();
    while let Some(k) = c.key() {
        back.push(*k);
        c.move_prev();
    }
    back.reverse();
    sym::check(back == want, "the order of blocks is wrong backwards");
    for (b, is) in &s.model {
        let n = l.bbs().node(b);
        sym::check(n.is_some(), "a block is missing");
        let n = n.unwrap().insts();
        let got: Vec<Value> = n.keys().copied().collect();
        sym::check(&got == is, "the order of instructions is wrong");
        sym::check(n.len() == is.len(), "the number of instructions is wrong");
        let mut back = vec![];
        let mut c = n.cursor_back();
        while let Some(k) = c.key() {
            back.push(*k);
            c.move_prev();
        }
        back.reverse();
        sym::check(&back == is, "the order of instructions is wrong backwards");
    }
    for b in &s.bbs {
        sym::check(l.bbs().contains_key(b) == want.contains(b), "a block is there that should not be");
    }
    for i in &s.insts {
        let home = s.model.iter().find(|m| m.1.contains(i)).map(|m| m.0);
        sym::check(l.parent_bb(*i) == home, "an instruction is said to be in another block");
    }
}

fn homeless(s: &St, i: Value) -> bool {
    s.model.iter().all(|m| !m.1.contains(&i))
}

fn step(s: &mut St) {
    let bbs = s.bbs.clone();
    let insts = s.insts.clone();
    let l = s.p.func_mut(s.f).layout_mut();
    match sym::pick(18) {
        k @ (0 | 1) => {
            let b = bbs[sym::pick(4)];
            let r = if k == 0 { l.bbs_mut().push_key_back(b) } else { l.bbs_mut().push_key_front(b) };
            let fresh = s.model.iter().all(|m| m.0 != b);
            sym::check(r.is_ok() == fresh, "a block went in twice, or did not go in");
            if fresh {
                s.model.insert(if k == 0 { s.model.len() } else { 0 }, (b, vec![]));
            }
            sym::reach(1);
        }
        2 => {
            let b = bbs[sym::pick(4)];
            let r = l.bbs_mut().remove(&b);
            let at = s.model.iter().position(|m| m.0 == b);
            sym::check(r.is_some() == at.is_some(), "removal of a block");
            if let Some((k, n)) = r {
                sym::check(k == b, "another block is removed");
                let got: Vec<Value> = n.insts().keys().copied().collect();
                sym::check(got == s.model[at.unwrap()].1, "a removed block has other instructions");
                s.model.remove(at.unwrap());
                sym::reach(2);
            }
        }
        k @ (3 | 4) => {
            // see `layout_pop`
            sym::assume(s.model.is_empty());
            let r = if k == 3 { l.bbs_mut().pop_front() } else { l.bbs_mut().pop_back() };
            let at = if k == 3 { 0 } else { s.model.len().wrapping_sub(1) };
            sym::check(r.map(|x| x.0) == s.model.get(at).map(|m| m.0), "another block is taken off");
            if at < s.model.len() {
                s.model.remove(at);
            }
        }
        5 => {
            l.bbs_mut().clear();
            s.model.clear();
        }
        k @ (6 | 7) => {
            let at = bbs[sym::pick(3)];
            let b = bbs[sym::pick(4)];
            let pos = s.model.iter().position(|m| m.0 == at);
            let fresh = s.model.iter().all(|m| m.0 != b);
            sym::assume(pos.is_some());
            let mut c = l.bbs_mut().cursor_mut(at);
            let r = if k == 6 { c.insert_key_before(b) } else { c.insert_key_after(b) };
            sym::check(r.is_ok() == fresh, "a block went in twice, or did not go in");
            if fresh {
                s.model.insert(pos.unwrap() + k - 6, (b, vec![]));
            }
        }
        8 => {
            let at = bbs[sym::pick(3)];
            let pos = s.model.iter().position(|m| m.0 == at);
            sym::assume(pos.is_some());
            let mut c = l.bbs_mut().cursor_mut(at);
            sym::check(c.remove_current().map(|x| x.0) == Some(at), "another block is removed");
            s.model.remove(pos.unwrap());
        }
        9 => {
            let b = bbs[sym::pick(4)];
            let there = s.model.iter().any(|m| m.0 == b);
            sym::panic_mode(if there { 0 } else { 2 });
            let _ = l.bb_mut(b);
        }
        k => {
            let b = bbs[sym::pick(3)];
            let pos = s.model.iter().position(|m| m.0 == b);
            sym::assume(pos.is_some());
            let m = pos.unwrap();
            match k {
                10 | 11 => {
                    let i = insts[sym::pick(5)];
                    let free = homeless(s, i);
                    let mine = s.model[m].1.contains(&i);
                    // in one block at a time
                    sym::assume(free || mine);
                    let il = s.p.func_mut(s.f).layout_mut().bb_mut(b).insts_mut();
                    let r = if k == 10 { il.push_key_back(i) } else { il.push_key_front(i) };
                    sym::check(r.is_ok() == free, "an instruction went in twice, or did not go in");
                    if free {
                        let at = if k == 10 { s.model[m].1.len() } else { 0 };
                        s.model[m].1.insert(at, i);
                        sym::reach(3);
                    }
                }
                12 => {
                    let i = insts[sym::pick(5)];
                    let at = s.model[m].1.iter().position(|x| *x == i);
                    let r = l.bb_mut(b).insts_mut().remove(&i);
                    sym::check(r.map(|x| x.0) == at.map(|_| i), "another instruction is removed");
                    if let Some(at) = at {
                        s.model[m].1.remove(at);
                        sym::reach(4);
                    }
                }
                13 | 14 => {
                    sym::assume(s.model[m].1.is_empty());
                    let il = l.bb_mut(b).insts_mut();
                    let r = if k == 13 { il.pop_front() } else { il.pop_back() };
                    let at = if k == 13 { 0 } else { s.model[m].1.len().wrapping_sub(1) };
                    sym::check(r.map(|x| x.0) == s.model[m].1.get(at).copied(), "another instruction is taken off");
                    if at < s.model[m].1.len() {
                        s.model[m].1.remove(at);
                    }
                }
                15 => {
                    l.bb_mut(b).insts_mut().clear();
                    s.model[m].1.clear();
                    sym::reach(5);
                }
                16 => {
                    let at = insts[sym::pick(4)];
                    let i = insts[sym::pick(5)];
                    let pos = s.model[m].1.iter().position(|x| *x == at);
                    let free = homeless(s, i);
                    sym::assume(pos.is_some() && (free || s.model[m].1.contains(&i)));
                    let after = sym::pick(2);
                    let mut c = s.p.func_mut(s.f).layout_mut().bb_mut(b).insts_mut().cursor_mut(at);
                    let r = if after == 1 { c.insert_key_after(i) } else { c.insert_key_before(i) };
                    sym::check(r.is_ok() == free, "an instruction went in twice, or did not go in");
                    if free {
                        s.model[m].1.insert(pos.unwrap() + after, i);
                        sym::reach(6);
                    }
                }
                _ => {
                    let at = insts[sym::pick(4)];
                    let pos = s.model[m].1.iter().position(|x| *x == at);
                    sym::assume(pos.is_some());
                    let mut c = l.bb_mut(b).insts_mut().cursor_mut(at);
                    sym::check(c.remove_current().map(|x| x.0) == Some(at), "another instruction is removed");
                    s.model[m].1.remove(pos.unwrap());
                }
            }
        }
    }
    agree(s);
}

/// Taking the first or last one off a list that is not empty.
fn layout_pop() {
    let mut s = start();
    let l = s.p.func_mut(s.f).layout_mut();
    let bb = sym::pick(2) == 1;
    let front = sym::pick(2) == 1;
    if bb {
        let r = if front { l.bbs_mut().pop_front() } else { l.bbs_mut().pop_back() };
        let m = s.model.remove(if front { 0 } else { 2 });
        sym::check(r.map(|x| x.0) == Some(m.0), "another block is taken off");
    } else {
        let b = s.bbs[sym::pick(2)];
        let il = l.bb_mut(b).insts_mut();
        let r = if front { il.pop_front() } else { il.pop_back() };
        let m = s.model.iter_mut().find(|m| m.0 == b).unwrap();
        let i = if front { m.1.remove(0) } else { m.1.pop().unwrap() };
        sym::check(r.map(|x| x.0) == Some(i), "another instruction is taken off");
    }
    agree(&s);
}

fn layout2() {
    let mut s = start();
    agree(&s);
    step(&mut s);
    step(&mut s);
}

fn layout3() {
    let mut s = start();
    for _ in 0..3 {
        step(&mut s);
    }
}

fn layout4() {
    let mut s = start();
    for _ in 0..4 {
        step(&mut s);
    }
}

/// Up to 40 blocks, up to 65 instructions in one, two operations anywhere.
fn layout_many() {
    let sizes = [(1usize, 5usize), (1, 9), (1, 17), (1, 65), (2, 5), (2, 33), (9, 1), (9, 9), (17, 1), (17, 5), (40, 3)];
    let (nb, ni) = sizes[sym::pick(sizes.len())];
    let mut p = Program::new();
    let f = p.new_func_def("@f".into(), vec![], Type::get_unit());
    let d = p.func_mut(f).dfg_mut();
    let bbs: Vec<BasicBlock> = (0..nb + 1).map(|_| d.new_bb().basic_block(None)).collect();
    let mut insts: Vec<Value> = vec![];
    let mut model = vec![];
    for b in 0..nb {
        let is: Vec<Value> = (0..ni).map(|_| d.new_value().alloc(i32t())).collect();
        insts.extend(&is);
        model.push((bbs[b], is));
    }
    let spare = d.new_value().alloc(i32t());
    insts.push(spare);
    let l = p.func_mut(f).layout_mut();
    let grow = sym::pick(3);
    if grow == 0 {
        // all blocks, then the instructions from the end
        l.bbs_mut().extend(bbs[..nb].iter().copied());
        for (b, is) in &model {
            for i in is.iter().rev() {
                sym::check(l.bb_mut(*b).insts_mut().push_key_front(*i).is_ok(), "an instruction does not go in");
            }
        }
    } else {
        for (b, is) in model.iter().rev() {
            sym::check(l.bbs_mut().push_key_front(*b).is_ok(), "a block does not go in");
            if grow == 1 {
                l.bb_mut(*b).insts_mut().extend(is.iter().copied());
            } else {
                for i in is {
                    sym::check(l.bb_mut(*b).insts_mut().push_key_back(*i).is_ok(), "an instruction does not go in");
                }
            }
        }
    }
    let home = bbs[nb];
    let mut s = St { p, f, bbs, insts, model };
    agree(&s);
    for _ in 0..if grow == 1 { 2 } else { 1 } {
        let l = s.p.func_mut(s.f).layout_mut();
        let n = s.model.len();
        let m = [0, 1, n / 2, n.saturating_sub(1)][sym::pick(4)];
        sym::assume(m < n && (m != 1 || n > 2));
        let (b, is) = s.model[m].clone();
        let k = is.len();
        match sym::pick(7) {
            0 => {
                let r = l.bbs_mut().remove(&b);
                sym::check(r.is_some_and(|x| x.1.insts().len() == k), "a removed block has other instructions");
                s.model.remove(m);
                sym::reach(0);
            }
            1 => {
                l.bbs_mut().clear();
                s.model.clear();
                sym::reach(1);
            }
            2 => {
                l.bb_mut(b).insts_mut().clear();
                s.model[m].1.clear();
                sym::reach(2);
            }
            3 => {
                let at = [0, 1, k / 2, k.saturating_sub(1)][sym::pick(4)];
                sym::assume(at < k && (at != 1 || k > 2));
                let r = l.bb_mut(b).insts_mut().remove(&is[at]);
                sym::check(r.is_some_and(|x| x.0 == is[at]), "another instruction is removed");
                s.model[m].1.remove(at);
                sym::reach(3);
            }
            4 => {
                let at = [0, 1, k / 2, k.saturating_sub(1)][sym::pick(4)];
                sym::assume(at < k && (at != 1 || k > 2));
                sym::assume(homeless(&s, spare));
                let mut c = s.p.func_mut(s.f).layout_mut().bb_mut(b).insts_mut().cursor_mut(is[at]);
                sym::check(c.insert_key_after(spare).is_ok(), "an instruction does not go in");
                s.model[m].1.insert(at + 1, spare);
                sym::reach(4);
            }
            5 => {
                sym::assume(s.model.iter().all(|x| x.0 != home));
                let mut c = l.bbs_mut().cursor_mut(b);
                sym::check(c.insert_key_before(home).is_ok(), "a block does not go in");
                s.model.insert(m, (home, vec![]));
                sym::reach(5);
            }
            _ => {
                // again what is there
                sym::check(l.bbs_mut().push_key_back(b).is_err(), "a block went in twice");
                if k > 0 {
                    sym::check(l.bb_mut(b).insts_mut().push_key_back(is[k - 1]).is_err(), "an instruction went in twice");
                }
                sym::reach(6);
            }
        }
        agree(&s);
    }
}

crate::harnesses! { layout_many layout2 layout3 layout4 layout_pop }
