//! The raw form describes the program, and the program comes back from it.
use crate::capi::*;
use crate::fam;
use crate::sym;
use crate::util::*;
use koopa::ir::builder_traits::*;
use koopa::ir::entities::*;
use koopa::ir::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::ptr::null;

const TYPE: i32 = 1;
const FUNC: i32 = 2;
const BB: i32 = 3;
const VALUE: i32 = 4;

pub fn op_code(o: BinaryOp) -> i32 {
    match o {
        BinaryOp::NotEq => 0,
        BinaryOp::Eq => 1,
        BinaryOp::Gt => 2,
        BinaryOp::Lt => 3,
        BinaryOp::Ge => 4,
        BinaryOp::Le => 5,
        BinaryOp::Add => 6,
        BinaryOp::Sub => 7,
        BinaryOp::Mul => 8,
        BinaryOp::Div => 9,
        BinaryOp::Mod => 10,
        BinaryOp::And => 11,
        BinaryOp::Or => 12,
        BinaryOp::Xor => 13,
        BinaryOp::Shl => 14,
        BinaryOp::Shr => 15,
        BinaryOp::Sar => 16,
    }
}

pub fn tag(k: &ValueKind) -> i32 {
    match k {
        ValueKind::Integer(_) => 0,
        ValueKind::ZeroInit(_) => 1,
        ValueKind::Undef(_) => 2,
        ValueKind::Aggregate(_) => 3,
        ValueKind::FuncArgRef(_) => 4,
        ValueKind::BlockArgRef(_) => 5,
        ValueKind::Alloc(_) => 6,
        ValueKind::GlobalAlloc(_) => 7,
        ValueKind::Load(_) => 8,
        ValueKind::Store(_) => 9,
        ValueKind::GetPtr(_) => 10,
        ValueKind::GetElemPtr(_) => 11,
        ValueKind::Binary(_) => 12,
        ValueKind::Branch(_) => 13,
        ValueKind::Jump(_) => 14,
        ValueKind::Call(_) => 15,
        ValueKind::Return(_) => 16,
    }
}

fn same_type(t: &Type, r: P) -> bool {
    unsafe {
        match t.kind() {
            TypeKind::Int32 => kc_type_tag(r) == 0,
            TypeKind::Unit => kc_type_tag(r) == 1,
            TypeKind::Array(b, n) => kc_type_tag(r) == 2 && same_type(b, kc_array_base(r)) && kc_array_len(r) == *n,
            TypeKind::Pointer(b) => kc_type_tag(r) == 3 && same_type(b, kc_pointer_base(r)),
            TypeKind::Function(ps, ret) => {
                kc_type_tag(r) == 4 && same_type(ret, kc_fun_ret(r)) && {
                    let v = items(kc_fun_params(r), TYPE);
                    v.len() == ps.len() && ps.iter().zip(v).all(|(p, q)| same_type(p, q))
                }
            }
        }
    }
}

/// Compares a raw program with the program it was made from.
struct Cmp<'a> {
    p: &'a Program,
    f: Option<&'a FunctionData>,
    funcs: HashMap<Function, P>,
    bbs: HashMap<BasicBlock, P>,
    values: HashMap<Value, P>,
    /// values in the order they are found, and whose they are
    seen: Vec<(Value, Option<Function>, P)>,
}

impl Cmp<'_> {
    /// `r` stands for `v`; what it says about itself is compared the first time.
    fn value(&mut self, v: Value, r: P, of: Option<Function>) {
        if let Some(q) = self.values.get(&v) {
            return sym::check(*q == r, "one value has two structures");
        }
        sym::check(self.values.values().all(|q| *q != r), "two values share a structure");
        self.values.insert(v, r);
        self.seen.push((v, of, r));
        let d = if v.is_global() { self.p.borrow_value(v).clone() } else { self.f.unwrap().dfg().value(v).clone() };
        unsafe {
            sym::check(same_type(d.ty(), kc_v_ty(r)), "a value has another type");
            sym::check(text(kc_v_name(r)) == *d.name(), "a value has another name");
            let k = d.kind();
            sym::check(kc_v_tag(r) == tag(k), "a value is of another kind");
            let uses = uses(k);
            let mut ops: Vec<P> = vec![];
            let mut lists = vec![];
            match k {
                ValueKind::Integer(i) => sym::check(kc_v_int(r) == i.value(), "an integer has another value"),
                ValueKind::FuncArgRef(a) => sym::check(kc_v_index(r) == a.index(), "a parameter has another index"),
                ValueKind::BlockArgRef(a) => sym::check(kc_v_index(r) == a.index(), "a parameter has another index"),
                ValueKind::GlobalAlloc(_) | ValueKind::Load(_) => ops.push(kc_v_ptr(r, 0)),
                ValueKind::Store(_) | ValueKind::GetPtr(_) | ValueKind::GetElemPtr(_) => {
                    ops.extend([kc_v_ptr(r, 0), kc_v_ptr(r, 1)])
                }
                ValueKind::Binary(b) => {
                    sym::check(kc_v_op(r) == op_code(b.op()), "an operator is another one");
                    ops.extend([kc_v_ptr(r, 0), kc_v_ptr(r, 1)]);
                }
                ValueKind::Branch(b) => {
                    ops.push(kc_v_ptr(r, 0));
                    self.target(b.true_bb(), kc_v_ptr(r, 1));
                    self.target(b.false_bb(), kc_v_ptr(r, 2));
                    let (t, f) = (items(kc_v_slice(r, 0), VALUE), items(kc_v_slice(r, 1), VALUE));
                    sym::check(t.len() == b.true_args().len(), "another number of arguments");
                    lists.extend(t);
                    lists.extend(f);
                }
                ValueKind::Jump(j) => {
                    self.target(j.target(), kc_v_ptr(r, 0));
                    lists = items(kc_v_slice(r, 0), VALUE);
                }
                ValueKind::Call(c) => {
                    let f = kc_v_ptr(r, 0);
                    match self.funcs.get(&c.callee()) {
                        Some(q) => sym::check(*q == f, "another callee"),
                        None => sym::check(false, "a callee that is not in the program"),
                    }
                    lists = items(kc_v_slice(r, 0), VALUE);
                }
                ValueKind::Return(x) => match x.value() {
                    Some(_) => ops.push(kc_v_ptr(r, 0)),
                    None => sym::check(kc_v_ptr(r, 0).is_null(), "a value is returned"),
                },
                ValueKind::Aggregate(_) => lists = items(kc_v_slice(r, 0), VALUE),
                _ => (),
            }
            ops.extend(lists);
            sym::check(ops.len() == uses.len(), "another number of operands");
            for (v, r) in uses.iter().zip(ops) {
                self.value(*v, r, of);
            }
        }
    }

    fn target(&mut self, b: BasicBlock, r: P) {
        sym::check(self.bbs.get(&b) == Some(&r), "another target");
    }

    fn values(&mut self, vs: &[Value], s: P, of: Option<Function>) {
        let rs = items(s, VALUE);
        sym::check(vs.len() == rs.len(), "a list has another length");
        for (v, r) in vs.iter().zip(rs) {
            self.value(*v, r, of);
        }
    }

    /// Exactly the users that are in the program.
    fn used_by<'b>(&self, us: impl Iterator<Item = &'b Value>, s: P) {
        let rs = items(s, VALUE);
        let us: Vec<P> = us.filter_map(|u| self.values.get(u).copied()).collect();
        sym::check(rs.len() == us.len(), "another number of users");
        sym::check(us.iter().all(|u| rs.contains(u)), "a user is missing");
    }
}

pub fn check_raw(p: &Program, raw: P) {
    let mut c = Cmp { p, f: None, funcs: HashMap::new(), bbs: HashMap::new(), values: HashMap::new(), seen: vec![] };
    unsafe {
        let fs = items(kc_funcs(raw), FUNC);
        sym::check(fs.len() == p.func_layout().len(), "another number of functions");
        for (f, r) in p.func_layout().iter().zip(&fs) {
            sym::check(c.funcs.values().all(|q| q != r), "two functions share a structure");
            c.funcs.insert(*f, *r);
        }
        c.values(&p.inst_layout().to_vec(), kc_values(raw), None);
        for (f, r) in p.func_layout().iter().zip(fs) {
            let d = p.func(*f);
            c.f = Some(d);
            sym::check(same_type(d.ty(), kc_f_ty(r)), "a function has another type");
            sym::check(text(kc_f_name(r)).as_deref() == Some(d.name()), "a function has another name");
            c.values(d.params(), kc_f_params(r), Some(*f));
            let bs = items(kc_f_bbs(r), BB);
            sym::check(bs.len() == d.layout().bbs().len(), "another number of blocks");
            for (b, r) in d.layout().bbs().keys().zip(&bs) {
                sym::check(c.bbs.values().all(|q| q != r), "two blocks share a structure");
                c.bbs.insert(*b, *r);
            }
            for ((b, n), r) in d.layout().bbs().iter().zip(&bs) {
                let bd = d.dfg().bb(*b);
                sym::check(text(kc_b_name(*r)) == *bd.name(), "a block has another name");
                c.values(bd.params(), kc_b_params(*r), Some(*f));
                let is: Vec<Value> = n.insts().keys().copied().collect();
                c.values(&is, kc_b_insts(*r), Some(*f));
            }
            for (b, r) in d.layout().bbs().keys().zip(&bs) {
                c.used_by(d.dfg().bb(*b).used_by().iter(), kc_b_used_by(*r));
            }
        }
        for (v, f, r) in &c.seen {
            let s = kc_v_used_by(*r);
            match f {
                Some(f) if !v.is_global() => c.used_by(p.func(*f).dfg().value(*v).used_by().iter(), s),
                _ => c.used_by(p.borrow_value(*v).used_by().iter(), s),
            }
        }
    }
}

/// `q` is `p`, handles aside: the same lists in the same order with the same contents and names.
pub fn exact(p: &Program, q: &Program) {
    let mut vs: HashMap<Value, Value> = HashMap::new();
    let mut fs: HashMap<Function, Function> = HashMap::new();
    sym::check(p.func_layout().len() == q.func_layout().len(), "back: another number of functions");
    for (a, b) in p.func_layout().iter().zip(q.func_layout()) {
        sym::check(p.func(*a).name() == q.func(*b).name(), "back: the functions are others or in another order");
        fs.insert(*a, *b);
    }
    sym::check(p.inst_layout().len() == q.inst_layout().len(), "back: another number of globals");
    for (v, w) in p.inst_layout().iter().zip(q.inst_layout()) {
        let (a, b) = (p.borrow_value(*v), q.borrow_value(*w));
        sym::check(a.ty() == b.ty() && a.name() == b.name(), "back: a global has another type or name");
        match (a.kind(), b.kind()) {
            (ValueKind::GlobalAlloc(x), ValueKind::GlobalAlloc(y)) => {
                sym::check(same_const(p, q, None, x.init(), y.init(), &vs), "back: another initial value")
            }
            _ => sym::check(false, "back: a global of another kind"),
        }
        vs.insert(*v, *w);
    }
    for (a, b) in p.func_layout().iter().zip(q.func_layout()) {
        let (f, g) = (p.func(*a), q.func(*b));
        sym::check(f.ty() == g.ty(), "back: a function has another type");
        sym::check(f.params().len() == g.params().len(), "back: another number of parameters");
        let mut vs = vs.clone();
        let mut pair = |v: Value, w: Value| {
            let (a, b) = (f.dfg().value(v), g.dfg().value(w));
            sym::check(a.ty() == b.ty(), "back: a value has another type");
            sym::check(a.name() == b.name(), "back: a value has another name");
            vs.insert(v, w);
        };
        for (v, w) in f.params().iter().zip(g.params()) {
            pair(*v, *w);
        }
        let mut bbs = HashMap::new();
        sym::check(f.layout().bbs().len() == g.layout().bbs().len(), "back: another number of blocks");
        for (b, c) in f.layout().bbs().keys().zip(g.layout().bbs().keys()) {
            let (x, y) = (f.dfg().bb(*b), g.dfg().bb(*c));
            sym::check(x.name() == y.name(), "back: the blocks are others or in another order");
            sym::check(x.params().len() == y.params().len(), "back: another number of block parameters");
            for (v, w) in x.params().iter().zip(y.params()) {
                pair(*v, *w);
            }
            bbs.insert(*b, *c);
        }
        for (m, n) in f.layout().bbs().nodes().zip(g.layout().bbs().nodes()) {
            sym::check(m.insts().len() == n.insts().len(), "back: another number of instructions");
            for (v, w) in m.insts().keys().zip(n.insts().keys()) {
                pair(*v, *w);
            }
        }
        for (m, n) in f.layout().bbs().nodes().zip(g.layout().bbs().nodes()) {
            for (v, w) in m.insts().keys().zip(n.insts().keys()) {
                let (k, l) = (f.dfg().value(*v).kind(), g.dfg().value(*w).kind());
                sym::check(tag(k) == tag(l), "back: an instruction of another kind");
                let more = match (k, l) {
                    (ValueKind::Binary(a), ValueKind::Binary(b)) => a.op() == b.op(),
                    (ValueKind::Branch(a), ValueKind::Branch(b)) => a.true_args().len() == b.true_args().len(),
                    (ValueKind::Call(a), ValueKind::Call(b)) => fs.get(&a.callee()) == Some(&b.callee()),
                    _ => true,
                };
                sym::check(more, "back: another operator, callee or number of arguments");
                let (t, u) = (targets(k), targets(l));
                sym::check(t.iter().zip(&u).all(|(b, c)| bbs.get(b) == Some(c)), "back: another target");
                let (o, r) = (uses(k), uses(l));
                sym::check(o.len() == r.len(), "back: another number of operands");
                for (a, b) in o.iter().zip(&r) {
                    sym::check(same_const(p, q, Some((f, g)), *a, *b, &vs), "back: another operand");
                }
            }
        }
    }
}

fn same_const(
    p: &Program,
    q: &Program,
    fg: Option<(&FunctionData, &FunctionData)>,
    v: Value,
    w: Value,
    map: &HashMap<Value, Value>,
) -> bool {
    if v.is_global() != w.is_global() {
        return false;
    }
    if let Some(m) = map.get(&v) {
        return *m == w;
    }
    let (a, b) = match fg {
        Some((f, g)) if !v.is_global() => (f.dfg().value(v).clone(), g.dfg().value(w).clone()),
        _ => (p.borrow_value(v).clone(), q.borrow_value(w).clone()),
    };
    if a.ty() != b.ty() || a.name() != b.name() {
        return false;
    }
    match (a.kind(), b.kind()) {
        (ValueKind::Integer(i), ValueKind::Integer(j)) => i.value() == j.value(),
        (ValueKind::Undef(_), ValueKind::Undef(_)) => true,
        (ValueKind::ZeroInit(_), ValueKind::ZeroInit(_)) => true,
        (ValueKind::Aggregate(i), ValueKind::Aggregate(j)) => {
            i.elems().len() == j.elems().len()
                && i.elems().iter().zip(j.elems()).all(|(a, b)| same_const(p, q, fg, *a, *b, map))
        }
        _ => false,
    }
}

/// To raw form and back, through the C interface.
fn there_and_back(p: &Program) {
    let raw = Mem::new(0);
    let live = sym::live();
    unsafe {
        let b = kc_new_builder();
        kc_build(raw.p(), b, p as *const Program as P);
        check_raw(p, raw.p());
        back(p, raw.p());
        // the raw program is left alone
        check_raw(p, raw.p());
        kc_delete_builder(b);
    }
    sym::check(sym::live() == live, "memory is not given back");
}

/// The program made from `raw` is `p`.
fn back(p: &Program, raw: P) {
    unsafe {
        let mut q: P = null();
        let e = kc_generate(raw, &mut q);
        sym::check(e == 0, "a valid raw program is refused");
        let back = &*(q as *const Program);
        exact(p, back);
        check_uses(back);
        kc_delete(q);
    }
}

/// All users of everything are in the program.
fn complete(p: &Program) -> bool {
    p.funcs().values().all(|f| {
        f.dfg().values().iter().all(|(v, d)| !d.kind().is_local_inst() || f.layout().parent_bb(*v).is_some())
    })
}

/// What is not in any block is not in the raw program.
fn loose(p: &Program) {
    unsafe {
        let raw = Mem::new(0);
        let b = kc_new_builder();
        kc_build(raw.p(), b, p as *const Program as P);
        check_raw(p, raw.p());
        back(p, raw.p());
        kc_delete_builder(b);
        sym::reach(complete(p) as u32);
    }
}

/// The sample program with every definition filled in.
pub fn whole() -> Zoo {
    let mut z = zoo();
    let d = z.p.func_mut(z.two);
    let b = d.dfg_mut().new_bb().basic_block(None);
    let a = d.params()[0];
    let r = d.dfg_mut().new_value().ret(Some(a));
    d.layout_mut().bbs_mut().extend([b]);
    d.layout_mut().bb_mut(b).insts_mut().extend([r]);
    z
}

/// Some instructions taken out of their blocks, or never put into one.
fn raw_loose() {
    let mut z = whole();
    let f = z.f;
    let two = z.two;
    let n = sym::pick(4);
    let d = z.p.func_mut(f);
    match n {
        0 => {
            let d = d.dfg_mut();
                    let m = match sym::pick(9) {
                0 => d.new_value().binary(BinaryOp::Add, z.add, z.c1),
                1 => d.new_value().load(z.gi),
                2 => d.new_value().store(z.c2, z.al),
                3 => d.new_value().get_ptr(z.gp, z.add),
                4 => d.new_value().get_elem_ptr(z.ga, z.c1),
                5 => d.new_value().call(two, vec![z.a, z.b]),
                6 => d.new_value().branch_with_args(z.ld, z.one, z.one2, vec![z.y], vec![z.x]),
                7 => d.new_value().ret(Some(z.a)),
                _ => d.new_value().aggregate(vec![z.c1, z.c2]),
            };
            if sym::pick(2) == 1 && !d.value(m).ty().is_unit() && d.value(m).ty().is_i32() {
                let n = d.new_value().binary(BinaryOp::Add, m, m);
                d.new_value().ret(Some(n));
            }
        }
        1 => {
            let v = [z.mul, z.st, z.stagg, z.gp, z.gep][sym::pick(5)];
            sym::assume(v != z.mul);
            d.layout_mut().bb_mut(z.entry).insts_mut().remove(&v);
        }
        2 => {
            // the rest of a block that is cut short
            d.layout_mut().bb_mut(z.plain).insts_mut().remove(&z.bra);
                    let j = d.dfg_mut().new_value().jump(z.plain2);
            d.layout_mut().bb_mut(z.plain).insts_mut().extend([j]);
        }
        _ => (),
    }
    loose(&z.p);
}

/// One builder for several programs: all of them stay valid.
fn raw_twice() {
    let mut mk = || match sym::pick(3) {
        0 => fam::types(false, 0).p,
        1 => whole().p,
        _ => Program::new(),
    };
    unsafe {
        let ps = [mk(), mk()];
        let raws = [Mem::new(0), Mem::new(0), Mem::new(0)];
        let live = sym::live();
        let b = kc_new_builder();
        let again = sym::pick(2);
        kc_build(raws[0].p(), b, &ps[0] as *const Program as P);
        kc_build(raws[1].p(), b, &ps[1] as *const Program as P);
        kc_build(raws[2].p(), b, &ps[again] as *const Program as P);
        check_raw(&ps[0], raws[0].p());
        check_raw(&ps[1], raws[1].p());
        check_raw(&ps[again], raws[2].p());
        kc_delete_builder(b);
        sym::check(sym::live() == live, "memory is not given back");
        // the same program after a change
        let mut z = whole();
        let b = kc_new_builder();
        kc_build(raws[0].p(), b, &z.p as *const Program as P);
        let d = z.p.func_mut(z.f);
        match sym::pick(4) {
            0 => d.dfg_mut().set_value_name(z.add, Some("%new".into())),
            1 => {
                            d.dfg_mut().replace_value_with(z.gp).load(z.gi);
            }
            2 => {
                d.layout_mut().bb_mut(z.entry).insts_mut().remove(&z.gep);
                d.dfg_mut().remove_value(z.gep);
            }
            _ => {
                let bb = d.dfg_mut().new_bb().basic_block(Some("%more".into()));
                d.layout_mut().bbs_mut().extend([bb]);
            }
        }
        kc_build(raws[1].p(), b, &z.p as *const Program as P);
        check_raw(&z.p, raws[1].p());
        kc_delete_builder(b);
    }
    sym::reach(0);
}

/// A long function: nothing takes stack for every block.
fn raw_deep() {
    let n = if cfg!(feature = "native") { 20_000 } else { 300 };
    let mut p = Program::new();
    let kind = sym::pick(3);
    if kind < 2 {
        // blocks that jump on, or carry a value with them
        let f = p.new_func_def("@f".into(), vec![i32t()], i32t());
        let fd = p.func_mut(f);
        let a = fd.params()[0];
        let mut bbs = vec![];
        for i in 0..n {
            let ps = if kind == 1 && i > 0 { vec![i32t()] } else { vec![] };
            let b = fd.dfg_mut().new_bb().basic_block_with_params(None, ps);
            bbs.push(b);
        }
        fd.layout_mut().bbs_mut().extend(bbs.iter().copied());
        for (i, b) in bbs.iter().enumerate() {
            let d = fd.dfg_mut();
            let x = if kind == 1 && i > 0 { d.bb(*b).params()[0] } else { a };
            let s = d.new_value().binary(BinaryOp::Add, x, a);
            let j = if i + 1 == n {
                d.new_value().ret(Some(s))
            } else if kind == 1 {
                d.new_value().jump_with_args(bbs[i + 1], vec![s])
            } else {
                d.new_value().branch(s, bbs[i + 1], bbs[n - 1])
            };
            fd.layout_mut().bb_mut(*b).insts_mut().extend([s, j]);
        }
    } else {
        // functions that call the next one
        let fs: Vec<_> = (0..n / 4).map(|i| p.new_func_def(format!("@f{}", i), vec![], Type::get_unit())).collect();
        for (i, f) in fs.iter().enumerate() {
            let fd = p.func_mut(*f);
            let b = fd.dfg_mut().new_bb().basic_block(None);
            fd.layout_mut().bbs_mut().extend([b]);
            let r = fd.dfg_mut().new_value().ret(None);
            if i + 1 < fs.len() {
                // (calls need the callee's type, which is known to the program only)
                let c = p.func_mut(*f).dfg_mut().new_value().call(fs[i + 1], vec![]);
                p.func_mut(*f).layout_mut().bb_mut(b).insts_mut().extend([c]);
            }
            p.func_mut(*f).layout_mut().bb_mut(b).insts_mut().extend([r]);
        }
    }
    unsafe {
        let raw = Mem::new(0);
        let b = kc_new_builder();
        kc_build(raw.p(), b, &p as *const Program as P);
        let mut q: P = null();
        sym::check(kc_generate(raw.p(), &mut q) == 0, "a valid raw program is refused");
        let back = &*(q as *const Program);
        sym::check(back.func_layout().len() == p.func_layout().len(), "another number of functions");
        kc_delete(q);
        kc_delete_builder(b);
    }
    sym::reach(0);
}

/// Writes raw programs as a C program would, through the structures of koopa.h.
struct Writer<'a> {
    p: &'a Program,
    mem: Vec<Mem>,
    lists: Vec<Vec<P>>,
    strs: Vec<CString>,
    funcs: HashMap<Function, P>,
    bbs: HashMap<BasicBlock, P>,
    values: HashMap<Value, P>,
    /// constants are written once for every use
    fresh: bool,
    /// lists that are written, with the kind they should have
    slices: Vec<P>,
    names: Vec<(i32, P)>,
}

fn field(p: P, f: impl Fn(P) -> P) -> P {
    f(p)
}

impl Writer<'_> {
    fn alloc(&mut self, what: i32) -> P {
        let m = Mem::new(what);
        let p = m.p();
        self.mem.push(m);
        p
    }
    fn list(&mut self, s: P, v: Vec<P>, kind: i32) {
        let b = if v.is_empty() && self.fresh { null() } else { v.as_ptr() };
        unsafe { kc_set_slice(s, b, v.len() as u32, kind) };
        self.lists.push(v);
        self.slices.push(s);
    }
    fn name(&mut self, s: &Option<String>) -> *const std::ffi::c_char {
        match s {
            None => null(),
            Some(s) => {
                self.strs.push(CString::new(s.as_str()).unwrap());
                self.strs.last().unwrap().as_ptr()
            }
        }
    }
    fn ty(&mut self, t: &Type) -> P {
        let r = self.alloc(1);
        unsafe {
            match t.kind() {
                TypeKind::Int32 => kc_set_type(r, 0, null(), 0),
                TypeKind::Unit => kc_set_type(r, 1, null(), 0),
                TypeKind::Array(b, n) => {
                    let b = self.ty(b);
                    kc_set_type(r, 2, b, *n)
                }
                TypeKind::Pointer(b) => {
                    let b = self.ty(b);
                    kc_set_type(r, 3, b, 0)
                }
                TypeKind::Function(ps, ret) => {
                    let b = self.ty(ret);
                    kc_set_type(r, 4, b, 0);
                    let v = ps.iter().map(|t| self.ty(t)).collect();
                    self.list(field(r, |r| kc_fun_params(r)), v, TYPE);
                }
            }
        }
        r
    }
    fn data(&self, v: Value, f: Option<&FunctionData>) -> ValueData {
        match f {
            Some(f) if !v.is_global() => f.dfg().value(v).clone(),
            _ => self.p.borrow_value(v).clone(),
        }
    }
    /// The structure of `v`, whose contents may come later.
    fn value(&mut self, v: Value, f: Option<&FunctionData>) -> P {
        let known = self.values.get(&v).copied();
        let d = self.data(v, f);
        match known {
            Some(r) if !(self.fresh && d.kind().is_const()) => return r,
            _ => (),
        }
        let r = self.alloc(4);
        self.values.insert(v, r);
        if d.kind().is_const() {
            self.fill(v, r, f);
        }
        r
    }
    fn fill(&mut self, v: Value, r: P, f: Option<&FunctionData>) {
        let d = self.data(v, f);
        let t = self.ty(d.ty());
        let n = self.name(d.name());
        unsafe {
            kc_set_v(r, t, n);
            if d.name().is_some() {
                self.names.push((4, r));
            }
            let o: Vec<P> = uses(d.kind()).iter().map(|v| self.value(*v, f)).collect();
            let (x, y) = (o.first().copied().unwrap_or(null()), o.get(1).copied().unwrap_or(null()));
            let t = tag(d.kind());
            match d.kind() {
                ValueKind::Integer(i) => kc_set_kind(r, t, i.value(), null(), null(), null()),
                ValueKind::FuncArgRef(a) => kc_set_kind(r, t, a.index() as i32, null(), null(), null()),
                ValueKind::BlockArgRef(a) => kc_set_kind(r, t, a.index() as i32, null(), null(), null()),
                ValueKind::Binary(b) => kc_set_kind(r, t, op_code(b.op()), x, y, null()),
                ValueKind::Branch(b) => {
                    kc_set_kind(r, t, 0, x, self.bbs[&b.true_bb()], self.bbs[&b.false_bb()]);
                    let n = 1 + b.true_args().len();
                    self.list(kc_v_slice(r, 0), o[1..n].to_vec(), VALUE);
                    self.list(kc_v_slice(r, 1), o[n..].to_vec(), VALUE);
                }
                ValueKind::Jump(j) => {
                    kc_set_kind(r, t, 0, self.bbs[&j.target()], null(), null());
                    self.list(kc_v_slice(r, 0), o, VALUE);
                }
                ValueKind::Call(c) => {
                    kc_set_kind(r, t, 0, self.funcs[&c.callee()], null(), null());
                    self.list(kc_v_slice(r, 0), o, VALUE);
                }
                ValueKind::Aggregate(_) => {
                    kc_set_kind(r, t, 0, null(), null(), null());
                    self.list(kc_v_slice(r, 0), o, VALUE);
                }
                _ => kc_set_kind(r, t, 0, x, y, null()),
            }
        }
    }
    fn program(&mut self) -> P {
        let raw = self.alloc(0);
        let p = self.p;
        for f in p.func_layout() {
            let r = self.alloc(2);
            self.funcs.insert(*f, r);
        }
        unsafe {
            let v: Vec<P> = p.inst_layout().iter().map(|g| self.value(*g, None)).collect();
            for (g, r) in p.inst_layout().iter().zip(&v) {
                self.fill(*g, *r, None);
            }
            self.list(kc_values(raw), v, VALUE);
            let v = p.func_layout().iter().map(|f| self.funcs[f]).collect();
            self.list(kc_funcs(raw), v, FUNC);
            for f in p.func_layout() {
                let r = self.funcs[f];
                let d = p.func(*f);
                let t = self.ty(d.ty());
                let n = self.name(&Some(d.name().into()));
                kc_set_f(r, t, n);
                self.names.push((2, r));
                let v: Vec<P> = d.params().iter().map(|v| self.value(*v, Some(d))).collect();
                for (v, r) in d.params().iter().zip(&v) {
                    self.fill(*v, *r, Some(d));
                }
                self.list(kc_f_params(r), v, VALUE);
                let mut bbs = vec![];
                for b in d.layout().bbs().keys() {
                    let r = self.alloc(3);
                    self.bbs.insert(*b, r);
                    bbs.push(r);
                }
                for (b, n) in d.layout().bbs().iter() {
                    let r = self.bbs[b];
                    let bd = d.dfg().bb(*b);
                    let name = self.name(bd.name());
                    kc_set_b(r, name);
                    if bd.name().is_some() {
                        self.names.push((3, r));
                    }
                    let v: Vec<P> = bd.params().iter().map(|v| self.value(*v, Some(d))).collect();
                    for (v, r) in bd.params().iter().zip(&v) {
                        self.fill(*v, *r, Some(d));
                    }
                    self.list(kc_b_params(r), v, VALUE);
                    let v: Vec<P> = n.insts().keys().map(|v| self.value(*v, Some(d))).collect();
                    for (v, r) in n.insts().keys().zip(&v) {
                        self.fill(*v, *r, Some(d));
                    }
                    self.list(kc_b_insts(r), v, VALUE);
                }
                let defined = !bbs.is_empty();
                self.list(kc_f_bbs(r), bbs, BB);
                if !defined {
                    self.slices.pop();
                }
            }
        }
        raw
    }
    fn new(p: &Program, fresh: bool) -> Writer<'_> {
        Writer {
            p, fresh, mem: vec![], lists: vec![], strs: vec![], funcs: HashMap::new(), bbs: HashMap::new(),
            values: HashMap::new(), slices: vec![], names: vec![],
        }
    }
}

/// Raw programs that the library did not write.
fn raw_write() {
    let p = match sym::pick(5) {
        0 => fam::arith(false).p,
        1 => fam::flow(false).p,
        2 => fam::call(false).p,
        3 => fam::types(false, 1).p,
        _ => whole().p,
    };
    let mut w = Writer::new(&p, sym::pick(2) == 1);
    let raw = w.program();
    back(&p, raw);
    sym::reach(0);
}
fn raw_write_mem() {
    let p = fam::mem(false).p;
    let mut w = Writer::new(&p, true);
    let raw = w.program();
    back(&p, raw);
    sym::reach(0);
}

/// Raw programs with one mistake are refused with the right code.
fn raw_errors() {
    let z = whole();
    let mut w = Writer::new(&z.p, false);
    let raw = w.program();
    let live = sym::live();
    let bad = b"%\xff\0";
    let extra = [w.mem[w.mem.len() - 1].p()];
    unsafe {
        let want = match sym::pick(5) {
            0 => {
                // a list of another kind
                let s = w.slices[sym::pick(w.slices.len())];
                let k = sym::pick(5) as i32;
                sym::assume(k != kc_kind(s));
                let v = list(s);
                kc_set_slice(s, if v.is_empty() { null() } else { w.lists.iter().find(|l| **l == v).unwrap().as_ptr() },
                    v.len() as u32, k);
                sym::reach(0);
                7
            }
            1 => {
                let (k, r) = w.names[sym::pick(w.names.len())];
                let n = bad.as_ptr() as *const std::ffi::c_char;
                match k {
                    2 => kc_set_f(r, kc_f_ty(r), n),
                    3 => kc_set_b(r, n),
                    _ => kc_set_v(r, kc_v_ty(r), n),
                }
                1
            }
            2 => {
                let f = z.p.func_layout()[sym::pick(z.p.func_layout().len())];
                let r = w.funcs[&f];
                kc_set_f(r, kc_f_ty(r), null());
                8
            }
            3 => {
                let f = z.p.func_layout()[sym::pick(z.p.func_layout().len())];
                let r = w.funcs[&f];
                let t = match sym::pick(4) {
                    0 => i32t(),
                    1 => Type::get_unit(),
                    2 => Type::get_array(i32t(), 2),
                    _ => Type::get_pointer(z.p.func(f).ty().clone()),
                };
                let t = w.ty(&t);
                kc_set_f(r, t, kc_f_name(r));
                9
            }
            _ => {
                let f = [z.f, z.two][sym::pick(2)];
                let r = w.funcs[&f];
                let mut v = list(kc_f_params(r));
                match sym::pick(3) {
                    0 => v.clear(),
                    1 => drop(v.pop()),
                    _ => v.push(extra[0]),
                }
                w.list(kc_f_params(r), v, VALUE);
                10
            }
        };
        let _ = live;
        let mine = 5usize as P;
        let mut q: P = mine;
        let live = sym::live();
        let e = kc_generate(raw, &mut q);
        sym::check(e == want, "a mistake is not reported, or with another code");
        sym::check(q == mine, "the program is overwritten although there is none");
        sym::check(sym::live() == live, "memory is not given back");
        sym::reach(want as u32);
    }
}

/// Any integers and lengths.
fn raw_ints() {
    let mut p = Program::new();
    let (i, j, k) = (sym::i32(), sym::i32(), sym::i32());
    let n = sym::u64() as usize;
    sym::assume(n > 0);
    let big = Type::get_array(i32t(), n);
    let c = p.new_value().integer(i);
    let e = p.new_value().integer(j);
    let g = p.new_value().aggregate(vec![c, e]);
    let g = p.new_value().global_alloc(g);
    p.set_value_name(g, Some("@g".into()));
    let z = p.new_value().zero_init(Type::get_array(big.clone(), 2));
    let h = p.new_value().global_alloc(z);
    p.set_value_name(h, Some("@h".into()));
    let f = p.new_func_def("@f".into(), vec![Type::get_pointer(big.clone())], i32t());
    let fd = p.func_mut(f);
    let a = fd.params()[0];
    let d = fd.dfg_mut();
    let b = d.new_bb().basic_block(None);
    let u = d.new_bb().basic_block_with_params(None, vec![i32t(), big.clone()]);
    let (x, y) = (d.new_value().integer(k), d.new_value().integer(i));
    let gp = d.new_value().get_elem_ptr(a, x);
    let ld = d.new_value().load(gp);
    let m = d.new_value().binary(BinaryOp::Mul, ld, y);
    let un = d.new_value().undef(big);
    let jmp = d.new_value().jump_with_args(u, vec![x, un]);
    let ret = d.new_value().ret(Some(m));
    fd.layout_mut().bbs_mut().extend([b, u]);
    fd.layout_mut().bb_mut(b).insts_mut().extend([gp, ld, m, jmp]);
    fd.layout_mut().bb_mut(u).insts_mut().extend([ret]);
    there_and_back(&p);
    let mut w = Writer::new(&p, sym::pick(2) == 1);
    let raw = w.program();
    back(&p, raw);
    sym::reach(0);
}

fn raw_arith() {
    there_and_back(&fam::arith(false).p);
    sym::reach(0);
}
fn raw_mem() {
    there_and_back(&fam::mem(false).p);
    sym::reach(0);
}
fn raw_flow() {
    loose(&fam::flow(false).p);
    sym::reach(0);
}
fn raw_call() {
    there_and_back(&fam::call(false).p);
    sym::reach(0);
}
fn raw_names() {
    there_and_back(&fam::names(false, false).p);
    sym::reach(0);
}
fn raw_types() {
    there_and_back(&fam::types(false, 1).p);
    sym::reach(0);
}
fn raw_types2() {
    there_and_back(&fam::types(false, 2).p);
    sym::reach(0);
}

fn raw_ops() {
    there_and_back(&fam::ops(false, false).p);
    sym::reach(0);
}
fn raw_ops2() {
    there_and_back(&fam::ops(false, true).p);
    sym::reach(0);
}

fn raw_many() {
    there_and_back(&fam::many(false).p);
    sym::reach(0);
}

fn raw_aggs() {
    there_and_back(&fam::aggs(false).p);
    sym::reach(0);
}

fn raw_huge() {
    there_and_back(&fam::huge(false).p);
    sym::reach(0);
}

crate::harnesses! {
    raw_huge
    raw_many raw_aggs
    raw_ops raw_ops2 raw_ints raw_write raw_write_mem raw_errors raw_loose raw_twice raw_deep raw_arith raw_mem raw_flow raw_call raw_names raw_types raw_types2 }
