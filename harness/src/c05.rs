//! Builders accept exactly the operands their documentation allows, and the
//! instruction they return says what it was built from.
use crate::sym;
use crate::util::*;
use koopa::ir::builder_traits::*;
use koopa::ir::dfg::DataFlowGraph;
use koopa::ir::*;

/// The harness's own notion of a type.
#[derive(Clone, PartialEq)]
pub enum T {
    I,
    U,
    A(Box<T>, usize),
    P(Box<T>),
    F(Vec<T>, Box<T>),
}
use T::*;

pub fn arr(t: T, n: usize) -> T {
    A(Box::new(t), n)
}
pub fn ptr(t: T) -> T {
    P(Box::new(t))
}

impl T {
    pub fn make(&self) -> Type {
        match self {
            I => Type::get_i32(),
            U => Type::get_unit(),
            A(t, n) => Type::get_array(t.make(), *n),
            P(t) => Type::get_pointer(t.make()),
            F(ps, r) => Type::get_function(ps.iter().map(|p| p.make()).collect(), r.make()),
        }
    }
    /// Read off the kinds only, without the type's own equality.
    pub fn is(&self, t: &Type) -> bool {
        match (self, t.kind()) {
            (I, TypeKind::Int32) | (U, TypeKind::Unit) => true,
            (A(b, n), TypeKind::Array(c, m)) => n == m && b.is(c),
            (P(b), TypeKind::Pointer(c)) => b.is(c),
            (F(ps, r), TypeKind::Function(qs, s)) => {
                ps.len() == qs.len() && ps.iter().zip(qs).all(|(p, q)| p.is(q)) && r.is(s)
            }
            _ => false,
        }
    }
}

pub struct Env {
    p: Program,
    f: Function,
    /// value, its type, is it a constant
    pool: Vec<(Value, T, bool)>,
    bbs: Vec<(BasicBlock, Vec<T>)>,
    fns: Vec<(Function, Vec<T>, T)>,
    spare: Value,
}

fn env() -> Env {
    let mut p = Program::new();
    let gc = p.new_value().integer(3);
    let gz = p.new_value().zero_init(arr(I, 3).make());
    let ga = p.new_value().global_alloc(gz);
    let fns = vec![
        (vec![], U),
        (vec![I], I),
        (vec![I, ptr(I)], ptr(arr(I, 2))),
        (vec![arr(I, 2)], U),
    ];
    let fns: Vec<(Function, Vec<T>, T)> = fns
        .into_iter()
        .map(|(ps, r)| {
            let tys = ps.iter().map(|t: &T| t.make()).collect();
            (p.new_func_decl("@x".into(), tys, r.make()), ps, r)
        })
        .collect();
    let f = p.new_func_def("@f".into(), vec![I.make(), ptr(I).make()], I.make());
    let d = p.func_mut(f);
    let (a0, a1) = (d.params()[0], d.params()[1]);
    let d = d.dfg_mut();
    let bbs = vec![vec![], vec![I], vec![I, ptr(I)], vec![], vec![I]];
    let bbs: Vec<(BasicBlock, Vec<T>)> = bbs
        .into_iter()
        .map(|ps| (d.new_bb().basic_block_with_params(None, ps.iter().map(|t: &T| t.make()).collect()), ps))
        .collect();
    let ba = d.bb(bbs[2].0).params()[1];
    let c = d.new_value().integer(1);
    let un = d.new_value().store(c, a1);
    let u2 = d.new_value().undef(arr(I, 2).make());
    let al = d.new_value().alloc(I.make());
    let al2 = d.new_value().alloc(arr(I, 2).make());
    let alp = d.new_value().alloc(ptr(I).make());
    let agg = d.new_value().aggregate(vec![c, c]);
    let uf = d.new_value().undef(F(vec![I], Box::new(U)).make());
    let ld = d.new_value().load(al2);
    let spare = d.new_value().binary(BinaryOp::Add, c, c);
    let pool = vec![
        (c, I, true),
        (a0, I, false),
        (gc, I, true),
        (un, U, false),
        (u2, arr(I, 2), true),
        (gz, arr(I, 3), true),
        (al, ptr(I), false),
        (al2, ptr(arr(I, 2)), false),
        (ga, ptr(arr(I, 3)), false),
        (alp, ptr(ptr(I)), false),
        (agg, arr(I, 2), true),
        (uf, F(vec![I], Box::new(U)), true),
        (ba, ptr(I), false),
        (ld, arr(I, 2), false),
    ];
    Env { p, f, pool, bbs, fns, spare }
}

impl Env {
    fn any(&self) -> (Value, T, bool) {
        self.pool[sym::pick(self.pool.len())].clone()
    }
    fn d(&mut self) -> &mut DataFlowGraph {
        self.p.func_mut(self.f).dfg_mut()
    }
    /// Runs one builder call, on a new value or in place of an old one, and
    /// returns what it made; the call must fail exactly if `bad`.
    fn make<const N: u32>(&mut self, bad: bool, ty: T, f: impl FnOnce(&mut dyn FnMut(Call) -> Value) -> Value) -> &ValueKind {
        let rep = sym::pick(2) == 1;
        sym::panic_mode(if bad { 2 } else { 0 });
        sym::reach(if bad { 100 + N } else { N });
        let spare = self.spare;
        let d = self.d();
        let v = f(&mut |c| if rep { c.go(d.replace_value_with(spare)) } else { c.go(d.new_value()) });
        sym::check(!rep || v == spare, "a replaced value changes its identity");
        let d = self.p.func(self.f).dfg();
        let data = d.value(v);
        // beyond this point a required panic is missing in any case
        if !bad {
            sym::check(ty.is(data.ty()), "a built value has another type than documented");
            sym::check(data.name().is_none() && (rep || data.used_by().is_empty()), "a fresh value has a name or users");
            sym::check(v.is_global() == false, "a local value counts as global");
            predicates(data.kind());
        }
        data.kind()
    }
}

/// What a kind says about itself.
fn predicates(k: &ValueKind) {
    use ValueKind::*;
    let constant = matches!(k, Integer(_) | ZeroInit(_) | Undef(_) | Aggregate(_));
    let other = matches!(k, FuncArgRef(_) | BlockArgRef(_) | GlobalAlloc(_));
    sym::check(k.is_const() == constant, "a value is not a constant, or is one, by mistake");
    sym::check(k.is_global_alloc() == matches!(k, GlobalAlloc(_)), "a value is not a global allocation, or is one, by mistake");
    sym::check(k.is_local_inst() != (constant || other), "a value is not an instruction, or is one, by mistake");
    sym::check(k.value_uses().eq(uses(k)), "the operands of a kind are not all there, or not in order");
    sym::check(k.bb_uses().eq(targets(k)), "the targets of a kind are not all there, or not in order");
}

enum Call {
    Int(i32),
    Zero(Type),
    Undef(Type),
    Agg(Vec<Value>),
    Alloc(Type),
    Load(Value),
    Store(Value, Value),
    GetPtr(Value, Value),
    GetElemPtr(Value, Value),
    Bin(BinaryOp, Value, Value),
    Br(Value, BasicBlock, BasicBlock),
    BrA(Value, BasicBlock, BasicBlock, Vec<Value>, Vec<Value>),
    Jmp(BasicBlock),
    JmpA(BasicBlock, Vec<Value>),
    Fn(Function, Vec<Value>),
    Ret(Option<Value>),
}

impl Call {
    fn go<B: LocalInstBuilder>(self, b: B) -> Value {
        match self {
            Call::Int(i) => b.integer(i),
            Call::Zero(t) => b.zero_init(t),
            Call::Undef(t) => b.undef(t),
            Call::Agg(v) => b.aggregate(v),
            Call::Alloc(t) => b.alloc(t),
            Call::Load(v) => b.load(v),
            Call::Store(v, w) => b.store(v, w),
            Call::GetPtr(v, w) => b.get_ptr(v, w),
            Call::GetElemPtr(v, w) => b.get_elem_ptr(v, w),
            Call::Bin(o, v, w) => b.binary(o, v, w),
            Call::Br(c, x, y) => b.branch(c, x, y),
            Call::BrA(c, x, y, v, w) => b.branch_with_args(c, x, y, v, w),
            Call::Jmp(x) => b.jump(x),
            Call::JmpA(x, v) => b.jump_with_args(x, v),
            Call::Fn(f, v) => b.call(f, v),
            Call::Ret(v) => b.ret(v),
        }
    }
}

fn types() -> Vec<T> {
    vec![I, U, arr(I, 2), ptr(I), ptr(U), F(vec![], Box::new(U)), arr(ptr(arr(I, 2)), 3)]
}

fn build_data() {
    let mut e = env();
    match sym::pick(5) {
        0 => {
            let x = sym::i32();
            let k = e.make::<0>(false, I, |b| b(Call::Int(x)));
            sym::check(matches!(k, ValueKind::Integer(i) if i.value() == x), "an integer has another value");
        }
        1 => {
            let t = types()[sym::pick(7)].clone();
            let ty = t.make();
            let k = e.make::<1>(t == U, t, |b| b(Call::Zero(ty)));
            sym::check(matches!(k, ValueKind::ZeroInit(_)), "kind");
        }
        2 => {
            let t = types()[sym::pick(7)].clone();
            let ty = t.make();
            let k = e.make::<2>(t == U, t, |b| b(Call::Undef(ty)));
            sym::check(matches!(k, ValueKind::Undef(_)), "kind");
        }
        3 => {
            let t = types()[sym::pick(7)].clone();
            let ty = t.make();
            let k = e.make::<3>(t == U, ptr(t.clone()), |b| b(Call::Alloc(ty)));
            sym::check(matches!(k, ValueKind::Alloc(_)), "kind");
        }
        _ => {
            let n = sym::pick(4);
            let es: Vec<_> = (0..n).map(|_| e.any()).collect();
            let bad = n == 0 || es.iter().any(|x| !x.2 || x.1 == U || x.1 != es[0].1);
            let vs: Vec<Value> = es.iter().map(|x| x.0).collect();
            let ty = if n == 0 { I } else { arr(es[0].1.clone(), n) };
            let ws = vs.clone();
            let k = e.make::<4>(bad, ty, |b| b(Call::Agg(ws)));
            sym::check(matches!(k, ValueKind::Aggregate(a) if a.elems() == &vs[..]), "an aggregate has other elements");
        }
    }
}

fn build_mem() {
    let mut e = env();
    let (v, vt, _) = e.any();
    let which = sym::pick(5);
    match which {
        0 => {
            let t = match &vt {
                P(t) => Some((**t).clone()),
                _ => None,
            };
            let k = e.make::<0>(t.is_none(), t.unwrap_or(I), |b| b(Call::Load(v)));
            sym::check(matches!(k, ValueKind::Load(l) if l.src() == v), "operand of a load");
        }
        4 => {
            let some = sym::pick(2) == 1;
            let ov = if some { Some(v) } else { None };
            let k = e.make::<4>(some && vt == U, U, |b| b(Call::Ret(ov)));
            sym::check(matches!(k, ValueKind::Return(r) if r.value() == ov), "operand of a return");
        }
        _ => {
            let (w, wt, _) = e.any();
            match which {
                1 => {
                    let bad = wt != ptr(vt);
                    let k = e.make::<1>(bad, U, |b| b(Call::Store(v, w)));
                    sym::check(matches!(k, ValueKind::Store(s) if s.value() == v && s.dest() == w), "operands of a store");
                }
                2 => {
                    let bad = !matches!(vt, P(_)) || wt != I;
                    let k = e.make::<2>(bad, vt, |b| b(Call::GetPtr(v, w)));
                    sym::check(matches!(k, ValueKind::GetPtr(s) if s.src() == v && s.index() == w), "operands of getptr");
                }
                _ => {
                    let t = match &vt {
                        P(t) => match &**t {
                            A(b, _) => Some(ptr((**b).clone())),
                            _ => None,
                        },
                        _ => None,
                    };
                    let bad = t.is_none() || wt != I;
                    let k = e.make::<3>(bad, t.unwrap_or(I), |b| b(Call::GetElemPtr(v, w)));
                    sym::check(
                        matches!(k, ValueKind::GetElemPtr(s) if s.src() == v && s.index() == w),
                        "operands of getelemptr",
                    );
                }
            }
        }
    }
}

fn build_bin() {
    let mut e = env();
    let (v, vt, _) = e.any();
    let (w, wt, _) = e.any();
    let op = if vt == I && wt == I { OPS[sym::pick(17)] } else { BinaryOp::Eq };
    let k = e.make::<0>(vt != I || wt != I, I, |b| b(Call::Bin(op, v, w)));
    sym::check(
        matches!(k, ValueKind::Binary(b) if b.op() == op && b.lhs() == v && b.rhs() == w),
        "operands of a binary instruction",
    );
}

fn args(e: &Env, n: usize) -> (Vec<Value>, Vec<T>) {
    // i32 (local, global), *i32 (two), unit, array
    let ix = [0, 2, 6, 12, 3, 4];
    let es: Vec<_> = (0..n).map(|_| e.pool[ix[sym::pick(6)]].clone()).collect();
    (es.iter().map(|x| x.0).collect(), es.iter().map(|x| x.1.clone()).collect())
}

fn build_jump() {
    let mut e = env();
    let (bb, ps) = e.bbs[sym::pick(5)].clone();
    match sym::pick(2) {
        0 => {
            let bad = !ps.is_empty();
            let k = e.make::<0>(bad, U, |b| b(Call::Jmp(bb)));
            sym::check(
                matches!(k, ValueKind::Jump(j) if j.target() == bb && j.args().is_empty()),
                "target of a jump",
            );
        }
        _ => {
            let n = sym::pick(4);
            let (vs, ts) = args(&e, n);
            let ws = vs.clone();
            let k = e.make::<1>(ts != ps, U, |b| b(Call::JmpA(bb, ws)));
            sym::check(
                matches!(k, ValueKind::Jump(j) if j.target() == bb && j.args() == &vs[..]),
                "operands of a jump",
            );
        }
    }
}

fn build_branch() {
    let mut e = env();
    let (c, ct, _) = e.any();
    let (b1, p1) = e.bbs[sym::pick(5)].clone();
    let (b2, p2) = e.bbs[sym::pick(5)].clone();
    let bad = ct != I || !p1.is_empty() || !p2.is_empty();
    let k = e.make::<0>(bad, U, |b| b(Call::Br(c, b1, b2)));
    sym::check(
        matches!(k, ValueKind::Branch(j) if j.cond() == c && j.true_bb() == b1 && j.false_bb() == b2
                 && j.true_args().is_empty() && j.false_args().is_empty()),
        "operands of a branch",
    );
}

fn branch_args(max: usize) {
    let mut e = env();
    let (c, ct, _) = e.pool[[1, 6][sym::pick(2)]].clone();
    let (b1, p1) = e.bbs[sym::pick(5)].clone();
    let (b2, p2) = e.bbs[sym::pick(5)].clone();
    let n = sym::pick(max + 1);
    let (v1, t1) = args(&e, n);
    let m = sym::pick(max + 1);
    let (v2, t2) = args(&e, m);
    let bad = ct != I || t1 != p1 || t2 != p2 || (b1 == b2 && (n > 0 || m > 0));
    let (w1, w2) = (v1.clone(), v2.clone());
    let k = e.make::<0>(bad, U, |b| b(Call::BrA(c, b1, b2, w1, w2)));
    sym::check(
        matches!(k, ValueKind::Branch(j) if j.cond() == c && j.true_bb() == b1 && j.false_bb() == b2
                 && j.true_args() == &v1[..] && j.false_args() == &v2[..]),
        "operands of a branch",
    );
}
fn build_branch1() {
    branch_args(1)
}
fn build_branch2() {
    branch_args(2)
}

fn build_call() {
    let mut e = env();
    let (f, ps, r) = e.fns[sym::pick(4)].clone();
    let n = sym::pick(4);
    let (vs, ts) = args(&e, n);
    let ws = vs.clone();
    let k = e.make::<0>(ts != ps, r, |b| b(Call::Fn(f, ws)));
    sym::check(matches!(k, ValueKind::Call(j) if j.callee() == f && j.args() == &vs[..]), "operands of a call");
}

/// Values of the program itself.
fn build_global() {
    let mut p = Program::new();
    let c = p.new_value().integer(sym::i32());
    let z = p.new_value().zero_init(arr(I, 3).make());
    let u = p.new_value().undef(ptr(I).make());
    let a = p.new_value().aggregate(vec![c, c]);
    let g = p.new_value().global_alloc(c);
    // the type of a value can be unit only if it was put there raw
    let f = p.new_func_def("@f".into(), vec![ptr(I).make()], U.make());
    let d = p.func_mut(f);
    let a0 = d.params()[0];
    let k = d.dfg_mut().new_value().integer(0);
    let st = d.dfg_mut().new_value().store(k, a0);
    let un = d.dfg_mut().value(st).clone();
    d.dfg_mut().remove_value(st);
    let d = d.dfg_mut();
    let ret = d.new_value().ret(None);
    let un = { let r = d.value(ret).clone(); let _ = un; r };
    let un = p.new_value().raw(un);
    let pool: Vec<(Value, T, bool)> = vec![
        (c, I, true),
        (z, arr(I, 3), true),
        (u, ptr(I), true),
        (a, arr(I, 2), true),
        (g, ptr(I), false),
        (un, U, false),
    ];
    let lay = p.inst_layout().to_vec();
    sym::check(lay == vec![g], "the list of globals is wrong");
    let any = || pool[sym::pick(6)].clone();
    let (v, ty) = match sym::pick(4) {
        0 => {
            let t = types()[sym::pick(7)].clone();
            sym::panic_mode(if t == U { 2 } else { 0 });
            (p.new_value().zero_init(t.make()), t)
        }
        1 => {
            let t = types()[sym::pick(7)].clone();
            sym::panic_mode(if t == U { 2 } else { 0 });
            (p.new_value().undef(t.make()), t)
        }
        2 => {
            let n = sym::pick(4);
            let es: Vec<_> = (0..n).map(|_| any()).collect();
            let bad = n == 0 || es.iter().any(|x| !x.2 || x.1 == U || x.1 != es[0].1);
            let vs: Vec<Value> = es.iter().map(|x| x.0).collect();
            sym::panic_mode(if bad { 2 } else { 0 });
            let v = p.new_value().aggregate(vs.clone());
            sym::check(
                matches!(p.borrow_value(v).kind(), ValueKind::Aggregate(a) if a.elems() == &vs[..]),
                "an aggregate has other elements",
            );
            (v, if n == 0 { I } else { arr(es[0].1.clone(), n) })
        }
        _ => {
            let (i, t, _) = any();
            sym::panic_mode(if t == U { 2 } else { 0 });
            let v = p.new_value().global_alloc(i);
            sym::check(
                matches!(p.borrow_value(v).kind(), ValueKind::GlobalAlloc(a) if a.init() == i),
                "a global has another initial value",
            );
            sym::check(p.inst_layout() == &[g, v][..], "the list of globals is wrong");
            (v, ptr(t))
        }
    };
    sym::reach(0);
    sym::check(ty.is(p.borrow_value(v).ty()), "a built value has another type than documented");
    sym::check(v.is_global(), "a global value counts as local");
    predicates(p.borrow_value(v).kind());
}

fn name(max: usize) -> (String, bool) {
    let n = sym::pick(max + 1);
    let mut b = vec![];
    for _ in 0..n {
        let c = sym::u8();
        sym::assume(c < 0x80);
        b.push(c);
    }
    let ok = n > 1 && (b[0] == b'%' || b[0] == b'@');
    // bytes below 0x80 are valid UTF-8
    (unsafe { String::from_utf8_unchecked(b) }, ok)
}

/// Names of values, blocks and functions, and the types of parameters.
fn build_names() {
    let mut e = env();
    let how = sym::pick(8);
    let (nm, ok) = name(3);
    let t1 = types()[if how > 1 { sym::pick(7) } else { 0 }].clone();
    let t2 = types()[if how > 1 { sym::pick(3) } else { 0 }].clone();
    let unit = t1 == U || t2 == U;
    let tys = vec![t1.make(), t2.make()];
    match how {
        0 => {
            sym::panic_mode(if ok { 0 } else { 2 });
            sym::reach(if ok { 0 } else { 100 });
            let s = e.spare;
            e.d().set_value_name(s, Some(nm.clone()));
            sym::check(e.d().value(s).name().as_ref() == Some(&nm), "a value has another name");
            e.d().set_value_name(s, None);
            sym::check(e.d().value(s).name().is_none(), "a name is not taken off");
        }
        1 => {
            sym::panic_mode(if ok { 0 } else { 2 });
            let c = e.p.new_value().integer(1);
            let g = e.p.new_value().global_alloc(c);
            e.p.set_value_name(g, Some(nm.clone()));
            sym::check(e.p.borrow_value(g).name().as_ref() == Some(&nm), "a global has another name");
        }
        2 | 3 | 4 => {
            let some = sym::pick(2) == 1;
            let o = if some { Some(nm) } else { None };
            let bad = (some && !ok) || (how > 2 && unit);
            let bad = if how == 4 { bad || (some && !ok) } else { bad };
            sym::panic_mode(if bad { 2 } else { 0 });
            sym::reach(if bad { 101 } else { 1 });
            let b = match how {
                2 => e.d().new_bb().basic_block(o.clone()),
                3 => e.d().new_bb().basic_block_with_params(o.clone(), tys),
                _ => e.d().new_bb().basic_block_with_param_names(
                    o.clone(),
                    vec![(Some("%p".into()), tys[0].clone()), (None, tys[1].clone())],
                ),
            };
            let d = e.p.func(e.f).dfg();
            sym::check(d.bb(b).name() == &o, "a block has another name");
            sym::check(d.bb(b).used_by().is_empty(), "a new block is used");
            let ps = d.bb(b).params();
            sym::check(ps.len() == if how == 2 { 0 } else { 2 }, "a block has other parameters");
            for (i, p) in ps.iter().enumerate() {
                let v = d.value(*p);
                sym::check([&t1, &t2][i].is(v.ty()), "a parameter of a block has another type");
                sym::check(matches!(v.kind(), ValueKind::BlockArgRef(r) if r.index() == i), "a parameter of a block is misnumbered");
                sym::check(v.name().as_deref() == if how == 4 && i == 0 { Some("%p") } else { None }, "a parameter has another name");
            }
        }
        _ => {
            let bad = !ok || unit;
            sym::panic_mode(if bad { 2 } else { 0 });
            sym::reach(if bad { 102 } else { 2 });
            let r = types()[sym::pick(4)].clone();
            let f = match how {
                5 => e.p.new_func_decl(nm.clone(), tys, r.make()),
                6 => e.p.new_func_def(nm.clone(), tys, r.make()),
                _ => e.p.new_func_def_with_param_names(
                    nm.clone(),
                    vec![(None, tys[0].clone()), (Some("%q".into()), tys[1].clone())],
                    r.make(),
                ),
            };
            let d = e.p.func(f);
            sym::check(d.name() == nm, "a function has another name");
            sym::check(F(vec![t1.clone(), t2.clone()], Box::new(r)).is(d.ty()), "a function has another type");
            sym::check(d.params().len() == if how == 5 { 0 } else { 2 }, "a function has other parameters");
            sym::check(*e.p.func_layout().last().unwrap() == f, "a new function is not the last one");
            sym::check(d.dfg().bbs().is_empty() && d.layout().bbs().is_empty(), "a new function has blocks");
            for (i, p) in d.params().iter().enumerate() {
                let v = d.dfg().value(*p);
                sym::check([&t1, &t2][i].is(v.ty()), "a parameter has another type");
                sym::check(matches!(v.kind(), ValueKind::FuncArgRef(r) if r.index() == i), "a parameter is misnumbered");
                sym::check(v.name().as_deref() == if how == 7 && i == 1 { Some("%q") } else { None }, "a parameter has another name");
            }
        }
    }
}

/// Long lists of operands and parameters, right or with one flaw somewhere.
fn build_wide() {
    let mut e = env();
    let n = [4usize, 5, 8, 9, 15, 16, 17, 32, 33][sym::pick(9)];
    let how = sym::pick(7);
    let pt = |i: usize| [I, ptr(I), arr(I, 2)][if how == 0 { 0 } else { i * i % 3 }].clone();
    // 0: right, 1: one operand more, 2: one fewer, 3: one of another type,
    // 4: one of unit type, 5: one that is not a constant
    let flaw = sym::pick(if how == 0 { 6 } else { 5 });
    let at = if flaw > 2 || flaw == 0 { sym::pick(n) } else { 0 };
    sym::assume(flaw != 0 || at < 2);
    let want: Vec<T> = (0..n).map(pt).collect();
    let mut have = want.clone();
    match flaw {
        1 => have.push(pt(n)),
        2 => have.truncate(n - 1),
        3 => have[at] = if have[at] == I { ptr(I) } else { I },
        4 => have[at] = U,
        _ => {}
    }
    let un = e.pool[3].0;
    let a0 = e.pool[1].0;
    let vals = |e: &mut Env, ts: &[T]| -> Vec<Value> {
        ts.iter()
            .enumerate()
            .map(|(i, t)| match t {
                U => un,
                I if flaw == 5 && i == at => a0,
                I => e.d().new_value().integer(i as i32),
                t => {
                    let t = t.make();
                    e.d().new_value().undef(t)
                }
            })
            .collect()
    };
    let tys = |ts: &[T]| -> Vec<Type> { ts.iter().map(|t| t.make()).collect() };
    match how {
        0 => {
            let vs = vals(&mut e, &have);
            let ws = vs.clone();
            let k = e.make::<0>(flaw > 2, arr(I, have.len()), |b| b(Call::Agg(ws)));
            sym::check(matches!(k, ValueKind::Aggregate(a) if a.elems() == &vs[..]), "an aggregate has other elements");
        }
        1 | 2 | 3 => {
            let bb = e.d().new_bb().basic_block_with_params(None, tys(&want));
            let vs = vals(&mut e, &have);
            let ws = vs.clone();
            let (b0, none) = (e.bbs[0].0, vec![]);
            let c = e.pool[0].0;
            let k = e.make::<1>(flaw > 0, U, |b| match how {
                1 => b(Call::JmpA(bb, ws)),
                2 => b(Call::BrA(c, bb, b0, ws, none)),
                _ => b(Call::BrA(c, b0, bb, none, ws)),
            });
            sym::check(
                match k {
                    ValueKind::Jump(j) => how == 1 && j.target() == bb && j.args() == &vs[..],
                    ValueKind::Branch(j) if how == 2 => {
                        j.true_bb() == bb && j.false_bb() == b0 && j.true_args() == &vs[..] && j.false_args().is_empty()
                    }
                    ValueKind::Branch(j) => {
                        j.true_bb() == b0 && j.false_bb() == bb && j.false_args() == &vs[..] && j.true_args().is_empty()
                    }
                    _ => false,
                },
                "operands of a jump or branch",
            );
        }
        4 => {
            let f = e.p.new_func_decl("@w".into(), tys(&want), arr(I, 2).make());
            let vs = vals(&mut e, &have);
            let ws = vs.clone();
            let k = e.make::<2>(flaw > 0, arr(I, 2), |b| b(Call::Fn(f, ws)));
            sym::check(matches!(k, ValueKind::Call(j) if j.callee() == f && j.args() == &vs[..]), "operands of a call");
        }
        5 => {
            let bad = flaw == 4;
            sym::panic_mode(if bad { 2 } else { 0 });
            sym::reach(if bad { 103 } else { 3 });
            let bb = e.d().new_bb().basic_block_with_params(None, tys(&have));
            let d = e.p.func(e.f).dfg();
            let ps = d.bb(bb).params();
            sym::check(ps.len() == have.len(), "a block has other parameters");
            for (i, p) in ps.iter().enumerate() {
                sym::check(have[i].is(d.value(*p).ty()), "a parameter of a block has another type");
                sym::check(
                    matches!(d.value(*p).kind(), ValueKind::BlockArgRef(r) if r.index() == i),
                    "a parameter of a block is misnumbered",
                );
            }
        }
        _ => {
            let bad = flaw == 4;
            sym::panic_mode(if bad { 2 } else { 0 });
            sym::reach(if bad { 104 } else { 4 });
            let named = sym::pick(2) == 1;
            let f = if named {
                let ps = tys(&have).into_iter().enumerate();
                let ps = ps.map(|(i, t)| (if i % 2 == 0 { Some(format!("%p{}", i)) } else { None }, t)).collect();
                e.p.new_func_def_with_param_names("@w".into(), ps, I.make())
            } else {
                e.p.new_func_def("@w".into(), tys(&have), I.make())
            };
            let d = e.p.func(f);
            sym::check(F(have.clone(), Box::new(I)).is(d.ty()), "a function has another type");
            sym::check(d.params().len() == have.len(), "a function has other parameters");
            for (i, p) in d.params().iter().enumerate() {
                let v = d.dfg().value(*p);
                sym::check(have[i].is(v.ty()), "a parameter has another type");
                sym::check(matches!(v.kind(), ValueKind::FuncArgRef(r) if r.index() == i), "a parameter is misnumbered");
                let nm = if named && i % 2 == 0 { Some(format!("%p{}", i)) } else { None };
                sym::check(v.name() == &nm, "a parameter has another name");
            }
        }
    }
}

/// Operands whose types are several layers tall and agree but for one layer.
fn build_tall() {
    let mut e = env();
    let n = [1usize, 2, 3, 5, 8, 12][sym::pick(6)];
    let shape = sym::pick(3);
    let tall = |flaw: Option<usize>| -> T {
        let mut t = I;
        for i in 0..n {
            let other = flaw == Some(i);
            t = match (shape, i % 2) {
                (0, _) => arr(t, if other { 5 } else { i + 1 }),
                (1, _) => if other { arr(t, 1) } else { ptr(t) },
                (_, 0) => arr(t, if other { 9 } else { 3 }),
                _ => if other { F(vec![t], Box::new(U)) } else { ptr(t) },
            };
        }
        t
    };
    let flaw = if sym::pick(2) == 1 { Some(sym::pick(n)) } else { None };
    let (t, u) = (tall(None), tall(flaw));
    let same = t == u;
    let tys = (t.make(), u.make());
    let v = e.d().new_value().undef(tys.0.clone());
    let w = e.d().new_value().undef(tys.1.clone());
    let d = e.d().new_value().alloc(tys.1.clone());
    let ix = e.pool[1].0;
    match sym::pick(8) {
        0 => {
            let k = e.make::<0>(!same, U, |b| b(Call::Store(v, d)));
            sym::check(matches!(k, ValueKind::Store(s) if s.value() == v && s.dest() == d), "operands of a store");
        }
        1 => {
            let k = e.make::<1>(!same, arr(t, 2), |b| b(Call::Agg(vec![v, w])));
            sym::check(matches!(k, ValueKind::Aggregate(a) if a.elems() == &[v, w][..]), "an aggregate has other elements");
        }
        2 => {
            e.make::<2>(false, u, |b| b(Call::Load(d)));
        }
        3 => {
            e.make::<3>(false, ptr(u), |b| b(Call::GetPtr(d, ix)));
        }
        4 => {
            let r = match &u {
                A(b, _) => Some(ptr((**b).clone())),
                _ => None,
            };
            e.make::<4>(r.is_none(), r.unwrap_or(I), |b| b(Call::GetElemPtr(d, ix)));
        }
        5 => {
            let f = e.p.new_func_decl("@w".into(), vec![I.make(), tys.0.clone()], tys.1.clone());
            e.make::<5>(!same, u, |b| b(Call::Fn(f, vec![ix, w])));
        }
        6 => {
            let bb = e.d().new_bb().basic_block_with_params(None, vec![tys.0.clone()]);
            e.make::<6>(!same, U, |b| b(Call::JmpA(bb, vec![w])));
        }
        _ => {
            let bb = e.d().new_bb().basic_block_with_params(None, vec![tys.0.clone()]);
            let b2 = e.d().new_bb().basic_block_with_params(None, vec![tys.1.clone()]);
            let flip = sym::pick(2) == 1;
            // each side gets a value of the other side's type
            let (x, y) = if flip { (w, v) } else { (v, w) };
            e.make::<7>(flip && !same, U, |b| b(Call::BrA(ix, bb, b2, vec![x], vec![y])));
        }
    }
}

/// Names that are longer, or not ASCII.
fn build_odd_names() {
    let mut e = env();
    let names = ["%é", "@日本", "é", "日%", "\u{ff05}x", "\u{ff20}x", "%\u{0}", "@ ", "%%", "@@", "%@", "x%", " %x", "%\n", "", "%", "@",
                 "%0", "@9x", "%x y", "# not", "$x", "!x", "&x", "A0", "?x", "\u{25}\u{25}", "@abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz"];
    let nm = names[sym::pick(names.len())];
    let b = nm.as_bytes();
    let ok = b.len() > 1 && (b[0] == b'%' || b[0] == b'@');
    let how = sym::pick(7);
    sym::panic_mode(if ok { 0 } else { 2 });
    sym::reach(if ok { 0 } else { 100 });
    let t = I.make();
    match how {
        0 => {
            let s = e.spare;
            e.d().set_value_name(s, Some(nm.into()));
            sym::check(e.d().value(s).name().as_deref() == Some(nm), "a value has another name");
        }
        1 => {
            let c = e.p.new_value().integer(1);
            let g = e.p.new_value().global_alloc(c);
            e.p.set_value_name(g, Some(nm.into()));
            sym::check(e.p.borrow_value(g).name().as_deref() == Some(nm), "a global has another name");
        }
        2 => {
            let b = e.d().new_bb().basic_block(Some(nm.into()));
            sym::check(e.d().bb(b).name().as_deref() == Some(nm), "a block has another name");
        }
        3 => {
            let b = e.d().new_bb().basic_block_with_params(Some(nm.into()), vec![t]);
            sym::check(e.d().bb(b).name().as_deref() == Some(nm), "a block has another name");
        }
        4 => {
            let b = e.d().new_bb().basic_block_with_param_names(Some(nm.into()), vec![(None, t)]);
            sym::check(e.d().bb(b).name().as_deref() == Some(nm), "a block has another name");
        }
        5 => {
            let f = e.p.new_func_decl(nm.into(), vec![], t);
            sym::check(e.p.func(f).name() == nm, "a function has another name");
        }
        _ => {
            let f = e.p.new_func_def(nm.into(), vec![], t);
            sym::check(e.p.func(f).name() == nm, "a function has another name");
        }
    }
}

/// Functions made on their own, put into a program, taken out again and put
/// into another one.
#[allow(deprecated)]
fn build_moved() {
    let mut p = Program::new();
    let mut q = Program::new();
    let i = I.make();
    let sig = |n: usize| [vec![], vec![I], vec![ptr(I)], vec![I, ptr(I)]][n].clone();
    let tys = |ts: &[T]| -> Vec<Type> { ts.iter().map(|t| t.make()).collect() };
    let (sp, sq, sf) = (sig(sym::pick(4)), sig(sym::pick(4)), sig(sym::pick(4)));
    let cp = p.new_func_decl("@cp".into(), tys(&sp), i.clone());
    let cq = q.new_func_decl("@cq".into(), tys(&sq), arr(I, 2).make());
    let k = p.new_value().integer(1);
    let gp = p.new_value().global_alloc(k);
    let k = q.new_value().zero_init(arr(I, 2).make());
    let gq = q.new_value().global_alloc(k);
    // a function of its own
    let how = sym::pick(3);
    let named = sf.iter().enumerate().map(|(n, t)| (if n == 0 { Some("%n".into()) } else { None }, t.make())).collect();
    let mut d = match how {
        0 => FunctionData::new("@f".into(), tys(&sf), U.make()),
        1 => FunctionData::with_param_names("@f".into(), named, U.make()),
        _ => FunctionData::new_decl("@f".into(), tys(&sf), U.make()),
    };
    if sym::pick(2) == 1 {
        d.set_name("@g".into());
        d.set_name("@f".into());
    }
    let f = p.new_func(d);
    let fd = p.func(f);
    sym::check(fd.name() == "@f" && F(sf.clone(), Box::new(U)).is(fd.ty()), "a function has another name or type");
    sym::check(fd.params().len() == if how == 2 { 0 } else { sf.len() }, "a function has other parameters");
    for (n, v) in fd.params().iter().enumerate() {
        let v = fd.dfg().value(*v);
        sym::check(sf[n].is(v.ty()), "a parameter has another type");
        sym::check(matches!(v.kind(), ValueKind::FuncArgRef(r) if r.index() == n), "a parameter is misnumbered");
        sym::check(v.name().as_deref() == if how == 1 && n == 0 { Some("%n") } else { None }, "a parameter has another name");
    }
    let d = p.func_mut(f).dfg_mut();
    let c = d.new_value().integer(4);
    let old = d.new_value().alloc(I.make());
    // where it is built on
    let place = sym::pick(3);
    let at = match place {
        0 => f,
        1 => {
            let d = p.remove_func(f).unwrap();
            p.new_func(d)
        }
        _ => {
            let d = p.remove_func(f).unwrap();
            q.new_func(d)
        }
    };
    if place > 0 {
        sym::check(at != f, "a function handle is given out again");
    }
    let here = if place < 2 { &mut p } else { &mut q };
    sym::check(here.funcs_mut().contains_key(&at) && here.funcs_mut().len() == 2, "a function is not in its program");
    let other = here.new_func_def("@other".into(), vec![], U.make());
    let on = if sym::pick(2) == 1 { other } else { at };
    let what = sym::pick(4);
    let bad;
    match what {
        0 | 1 => {
            // a call of a function that is here or not, with arguments that fit or not
            let want = [(cp, &sp), (cq, &sq), (f, &sf), (at, &sf)][sym::pick(4)];
            let give = sig(sym::pick(4));
            let gone = [cp, cq, f].iter().position(|x| *x == want.0).is_some_and(|n| [place == 2, place < 2, place > 0][n]);
            bad = gone || *want.1 != give;
            sym::panic_mode(if bad { 2 } else { 0 });
            sym::reach(if bad { 100 } else { 0 });
            let d = here.funcs_mut().get_mut(&on).unwrap().dfg_mut();
            let vs: Vec<Value> = give
                .iter()
                .map(|t| match t {
                    I => d.new_value().integer(9),
                    _ => d.new_value().alloc(I.make()),
                })
                .collect();
            let v = d.new_value().call(want.0, vs.clone());
            let r = if want.0 == cp { I } else if want.0 == cq { arr(I, 2) } else { U };
            sym::check(r.is(d.value(v).ty()), "a call has another type than the function returns");
            sym::check(matches!(d.value(v).kind(), ValueKind::Call(x) if x.callee() == want.0 && x.args() == &vs[..]), "operands of a call");
        }
        2 => {
            let g = [gp, gq][sym::pick(2)];
            bad = (g == gp) == (place == 2);
            sym::panic_mode(if bad { 2 } else { 0 });
            sym::reach(if bad { 101 } else { 1 });
            let d = here.func_mut(on).dfg_mut();
            let v = d.new_value().load(g);
            sym::check(if g == gp { I } else { arr(I, 2) }.is(d.value(v).ty()), "a load has another type");
        }
        _ => {
            // what the function had before is still its own, and only its
            bad = on == other;
            sym::panic_mode(if bad { 2 } else { 0 });
            sym::reach(if bad { 102 } else { 2 });
            let d = here.func_mut(on).dfg_mut();
            let v = d.new_value().store(c, old);
            sym::check(matches!(d.value(v).kind(), ValueKind::Store(s) if s.value() == c && s.dest() == old), "operands of a store");
        }
    }
    if !bad {
        check_uses(here);
    }
}

/// Jumps and branches to blocks some of whose parameters were taken away.
fn build_params() {
    let mut e = env();
    let all = [I, ptr(I), I, arr(I, 2)];
    let b = e.d().new_bb().basic_block_with_params(None, tys_of(&all));
    let ps = e.d().bb(b).params().to_vec();
    let mut left = vec![];
    for (i, p) in ps.iter().enumerate() {
        if sym::pick(2) == 1 {
            e.d().bb_mut(b).params_mut().retain(|q| q != p);
            e.d().remove_value(*p);
        } else {
            left.push((*p, all[i].clone()));
        }
    }
    let mut want: Vec<T> = left.iter().map(|x| x.1.clone()).collect();
    let ps: Vec<Value> = left.iter().map(|x| x.0).collect();
    let ps: Vec<Value> = if sym::pick(2) == 1 {
        e.d().bbs_mut().get_mut(&b).unwrap().params_mut().reverse();
        want.reverse();
        ps.into_iter().rev().collect()
    } else {
        ps
    };
    sym::check(e.d().bb(b).params() == &ps[..], "a block has other parameters");
    let give: Vec<T> = match sym::pick(4) {
        0 => want.clone(),
        1 => all.to_vec(),
        2 => want.iter().skip(1).cloned().collect(),
        _ => want.iter().rev().cloned().collect(),
    };
    let bad = give != want;
    let mut vs = vec![];
    for t in &give {
        vs.push(match t {
            I => e.d().new_value().integer(9),
            t => {
                let t = t.make();
                e.d().new_value().undef(t)
            }
        });
    }
    let (ws, c, b0) = (vs.clone(), e.pool[0].0, e.bbs[0].0);
    let how = sym::pick(3);
    let k = e.make::<0>(bad, U, |x| match how {
        0 => x(Call::JmpA(b, ws)),
        1 => x(Call::BrA(c, b, b0, ws, vec![])),
        _ => x(Call::BrA(c, b0, b, vec![], ws)),
    });
    sym::check(
        match k {
            ValueKind::Jump(j) => j.target() == b && j.args() == &vs[..],
            ValueKind::Branch(j) if how == 1 => j.true_bb() == b && j.true_args() == &vs[..] && j.false_args().is_empty(),
            ValueKind::Branch(j) => j.false_bb() == b && j.false_args() == &vs[..] && j.true_args().is_empty(),
            _ => false,
        },
        "operands of a jump or branch",
    );
    check_uses(&e.p);
    // and the block goes with those it has left
    sym::check(e.d().bb(b).used_by().len() == 1, "users of a block");
    let u = e.spare;
    let there = e.d().bb(b).used_by().contains(&u);
    let u = if there { u } else { *e.d().bb(b).used_by().iter().next().unwrap() };
    e.d().replace_value_with(u).integer(1);
    let n = e.d().values().len();
    let r = e.d().remove_bb(b);
    sym::check(r.params() == &ps[..], "removal returns other data");
    sym::check(e.d().values().len() == n - ps.len(), "parameters of a removed block are left");
    check_uses(&e.p);
}

fn tys_of(ts: &[T]) -> Vec<Type> {
    ts.iter().map(|t| t.make()).collect()
}

crate::harnesses! { build_data build_mem build_bin build_jump build_branch build_branch1 build_branch2 build_call build_global build_names
    build_wide build_tall build_odd_names build_moved build_params }
