//! Threads that work at the same time do not disturb each other.
use crate::c02::{koopa_text, llvm_text};
use crate::capi::*;
use crate::sym;
use crate::util::*;
use koopa::front::driver::Driver;
use koopa::front::span::Span;
use koopa::ir::builder_traits::*;
use koopa::ir::*;
use std::ffi::CString;

/// What a thread has to show.
#[derive(Default)]
struct Out {
    values: Vec<Value>,
    bbs: Vec<BasicBlock>,
    funcs: Vec<Function>,
    /// what must not depend on the other threads
    seen: Vec<u8>,
}

impl Out {
    fn see(&mut self, b: &[u8]) {
        self.seen.extend_from_slice(b);
        self.seen.push(0);
    }
    fn num(&mut self, n: usize) {
        self.seen.extend_from_slice(n.to_string().as_bytes());
        self.seen.push(0);
    }
}

/// Every sort of handle.
fn create(o: &mut Out) {
    let mut p = Program::new();
    let c = p.new_value().integer(1);
    let g = p.new_value().global_alloc(c);
    o.values.extend([c, g]);
    let f = p.new_func_def("@f".into(), vec![i32t()], i32t());
    o.funcs.push(f);
    let fd = p.func_mut(f);
    o.values.extend_from_slice(fd.params());
    let b = fd.dfg_mut().new_bb().basic_block_with_params(None, vec![i32t()]);
    o.bbs.push(b);
    o.values.extend_from_slice(fd.dfg().bb(b).params());
    let k = fd.dfg_mut().new_value().integer(7);
    o.values.push(k);
    sym::check(c.is_global() && g.is_global(), "a global value counts as local");
    sym::check(!k.is_global() && !fd.params()[0].is_global(), "a local value counts as global");
    o.num(p.borrow_values().len());
    o.num(p.inst_layout().len());
    o.num(p.func_layout().len());
    o.num(p.func(f).dfg().values().len());
}

/// A program is built, edited and printed.
fn print(o: &mut Out) {
    let mut p = Program::new();
    let g = p.new_func_decl("@g".into(), vec![i32t()], Type::get_unit());
    let f = p.new_func_def("@f".into(), vec![i32t()], i32t());
    o.funcs.extend([g, f]);
    let fd = p.func_mut(f);
    let a = fd.params()[0];
    let e = fd.dfg_mut().new_bb().basic_block(Some("%e".into()));
    let l = fd.dfg_mut().new_value().alloc(i32t());
    let s = fd.dfg_mut().new_value().store(a, l);
    let c = fd.dfg_mut().new_value().call(g, vec![a]);
    let x = fd.dfg_mut().new_value().load(l);
    let r = fd.dfg_mut().new_value().ret(Some(x));
    fd.layout_mut().bbs_mut().push_key_back(e).unwrap();
    fd.layout_mut().bb_mut(e).insts_mut().extend([l, s, c, x, r]);
    fd.dfg_mut().replace_value_with(x).binary(BinaryOp::Add, a, a);
    o.bbs.push(e);
    o.values.extend([a, l, s, c, x, r]);
    check_uses(&p);
    let t = koopa_text(&p);
    o.see(&t);
    o.see(&llvm_text(&p));
}

/// A text is read. The counts of errors are those of this one.
fn read(o: &mut Out, t: &str) {
    let p = Driver::from(t).generate_program();
    o.num(Span::error_num());
    o.num(Span::warning_num());
    match p {
        Ok(p) => {
            o.values.extend(p.borrow_values().keys());
            o.funcs.extend_from_slice(p.func_layout());
            for f in p.func_layout() {
                o.values.extend(p.func(*f).dfg().values().keys());
                o.bbs.extend(p.func(*f).dfg().bbs().keys());
            }
            o.see(&koopa_text(&p));
        }
        Err(_) => o.see(b"error"),
    }
}

/// Types are created, compared, measured and printed.
fn types(o: &mut Out) {
    let a = Type::get_array(i32t(), 3);
    let f = Type::get_function(vec![a.clone(), Type::get_pointer(i32t())], Type::get_unit());
    let p = Type::get_pointer(f.clone());
    sym::check(Type::get_array(i32t(), 3) == a, "two types of the same structure are not equal");
    sym::check(Type::get_pointer(f.clone()) == p, "two types of the same structure are not equal");
    sym::check(Type::get_array(i32t(), 4) != a && p != f, "two types of different structure are equal");
    for t in [&a, &f, &p] {
        o.num(t.size());
        o.see(t.to_string().as_bytes());
    }
}

/// The same through the C interface.
fn c_side(o: &mut Out) {
    let t = CString::new("decl @d(i32)\nfun @f(%a: i32): i32 {\n%e:\n call @d(%a)\n ret 1\n}\n").unwrap();
    unsafe {
        let mut p: P = std::ptr::null();
        o.num(kc_parse_string(t.as_ptr(), &mut p) as usize);
        let b = kc_new_builder();
        let raw = Mem::new(0);
        kc_build(raw.p(), b, p);
        o.num(kc_len(kc_funcs(raw.p())) as usize);
        let mut q: P = std::ptr::null();
        o.num(kc_generate(raw.p(), &mut q) as usize);
        kc_delete_builder(b);
        kc_delete(p);
        let mut n = 0usize;
        o.num(kc_dump_string(0, q, std::ptr::null_mut(), &mut n) as usize);
        let mut v = vec![0u8; n + 1];
        n += 1;
        o.num(kc_dump_string(0, q, v.as_mut_ptr() as *mut _, &mut n) as usize);
        o.see(&v);
        kc_delete(q);
    }
}

fn work(k: usize) -> Out {
    let mut o = Out::default();
    match k {
        0 => create(&mut o),
        1 => print(&mut o),
        2 => read(&mut o, "global @g = alloc i32, 1\nfun @f(%a: i32): i32 {\n%e:\n %x = add %a, 1\n ret %x\n}\n"),
        3 => read(&mut o, "fun @f() {\n%e:\n jump %n\n}\nfun @f() {\n%e:\n store 1, %z\n ret\n}\n"),
        4 => types(&mut o),
        _ => c_side(&mut o),
    }
    o
}

/// The threads do what `jobs` say.
fn together(jobs: &[usize], preempt: u32) {
    let mut all: Vec<(usize, Out)> = vec![];
    let alone: Vec<Out> = jobs.iter().map(|k| work(*k)).collect();
    let outs = sym::threads(jobs.len(), preempt, &|i| work(jobs[i]));
    for (i, o) in outs {
        sym::check(o.seen == alone[i].seen, "a thread gets something else than it gets alone");
        all.push((i, o));
    }
    for o in alone {
        sym::observe_bytes(&o.seen);
        all.push((0, o));
    }
    let mut v: Vec<Value> = vec![];
    let mut b: Vec<BasicBlock> = vec![];
    let mut f: Vec<Function> = vec![];
    for (_, o) in all {
        v.extend(o.values);
        b.extend(o.bbs);
        f.extend(o.funcs);
    }
    fn unique<T: Copy + Eq + std::hash::Hash>(v: &[T]) -> bool {
        let mut s = std::collections::HashSet::new();
        v.iter().all(|x| s.insert(*x))
    }
    sym::check(unique(&v), "two values have the same handle");
    sym::check(unique(&b), "two blocks have the same handle");
    sym::check(unique(&f), "two functions have the same handle");
    sym::reach(0);
}

fn threads_two() {
    let a = sym::pick(6);
    let b = sym::pick(6);
    sym::assume(a <= b);
    together(&[a, b], 2);
}

fn threads_two3() {
    let a = sym::pick(6);
    let b = sym::pick(6);
    sym::assume(a <= b);
    together(&[a, b], 3);
}

fn threads_three() {
    together(&[0, 0, 0], 2);
}

/// The size of pointers is the same in all threads.
fn threads_size() {
    let n = sym::u16() as usize;
    Type::set_ptr_size(n);
    let outs = sym::threads(2, 2, &|_| Type::get_array(Type::get_pointer(i32t()), 3).size());
    for (_, s) in outs {
        sym::check(s == 3 * n, "the size of pointers is another one in a thread");
    }
    sym::reach(0);
}

crate::harnesses! { threads_two threads_two3 threads_three threads_size }
