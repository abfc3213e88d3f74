//! What several harnesses need: independent views of the IR and a program
//! that has one of everything.

use crate::sym;
use koopa::ir::builder_traits::*;
use koopa::ir::dfg::DataFlowGraph;
use koopa::ir::entities::{BasicBlockData, ValueData};
use koopa::ir::values::*;
use koopa::ir::*;

/// The operands of an instruction, in order, read off its accessors.
pub fn uses(k: &ValueKind) -> Vec<Value> {
    let mut v = vec![];
    match k {
        ValueKind::Integer(_)
        | ValueKind::ZeroInit(_)
        | ValueKind::Undef(_)
        | ValueKind::FuncArgRef(_)
        | ValueKind::BlockArgRef(_)
        | ValueKind::Alloc(_) => {}
        ValueKind::Aggregate(a) => v.extend_from_slice(a.elems()),
        ValueKind::GlobalAlloc(a) => v.push(a.init()),
        ValueKind::Load(a) => v.push(a.src()),
        ValueKind::Store(a) => {
            v.push(a.value());
            v.push(a.dest())
        }
        ValueKind::GetPtr(a) => {
            v.push(a.src());
            v.push(a.index())
        }
        ValueKind::GetElemPtr(a) => {
            v.push(a.src());
            v.push(a.index())
        }
        ValueKind::Binary(a) => {
            v.push(a.lhs());
            v.push(a.rhs())
        }
        ValueKind::Branch(a) => {
            v.push(a.cond());
            v.extend_from_slice(a.true_args());
            v.extend_from_slice(a.false_args());
        }
        ValueKind::Jump(a) => v.extend_from_slice(a.args()),
        ValueKind::Call(a) => v.extend_from_slice(a.args()),
        ValueKind::Return(a) => v.extend(a.value()),
    }
    v
}

pub fn targets(k: &ValueKind) -> Vec<BasicBlock> {
    match k {
        ValueKind::Branch(a) => vec![a.true_bb(), a.false_bb()],
        ValueKind::Jump(a) => vec![a.target()],
        _ => vec![],
    }
}

fn same_set<'a>(set: &std::collections::HashSet<Value>, mut want: Vec<Value>) -> bool {
    let mut n = 0;
    while let Some(v) = want.pop() {
        if !want.contains(&v) {
            n += 1;
            if !set.contains(&v) {
                return false;
            }
        }
    }
    set.len() == n
}

/// Every value and block of `p` records exactly the instructions that name it.
pub fn check_uses(p: &Program) {
    let globals = p.borrow_values();
    let mut users: Vec<(Value, Value)> = vec![];
    let mut bb_users: Vec<(BasicBlock, Value)> = vec![];
    {
        let mut see = |v: Value, d: &ValueData| {
            let u = uses(d.kind());
            let t = targets(d.kind());
            sym::check(d.kind().value_uses().collect::<Vec<_>>() == u, "operand iterator misses or invents an operand");
            sym::check(d.kind().bb_uses().collect::<Vec<_>>() == t, "target iterator misses or invents a block");
            for o in u {
                users.push((o, v));
            }
            for b in t {
                bb_users.push((b, v));
            }
        };
        for (v, d) in globals.iter() {
            see(*v, d);
        }
        for f in p.funcs().values() {
            for (v, d) in f.dfg().values() {
                see(*v, d);
            }
        }
    }
    let of = |v: Value| -> Vec<Value> { users.iter().filter(|x| x.0 == v).map(|x| x.1).collect() };
    for (v, d) in globals.iter() {
        sym::check(same_set(d.used_by(), of(*v)), "users recorded for a global value are wrong");
    }
    for f in p.funcs().values() {
        for (v, d) in f.dfg().values() {
            sym::check(same_set(d.used_by(), of(*v)), "users recorded for a local value are wrong");
        }
        for (b, d) in f.dfg().bbs() {
            let w = bb_users.iter().filter(|x| x.0 == *b).map(|x| x.1).collect();
            sym::check(same_set(d.used_by(), w), "users recorded for a basic block are wrong");
        }
    }
    // nothing names what is not there
    for (o, _) in &users {
        let there = globals.contains_key(o) || p.funcs().values().any(|f| f.dfg().values().contains_key(o));
        sym::check(there, "an operand does not exist");
    }
}

/// Names of the parts of the sample program.
pub struct Zoo {
    pub p: Program,
    pub gi: Value,
    pub ga: Value,
    pub f: Function,
    pub dec: Function,
    pub two: Function,
    pub nop: Function,
    pub a: Value,
    pub b: Value,
    pub entry: BasicBlock,
    pub plain: BasicBlock,
    pub plain2: BasicBlock,
    pub one: BasicBlock,
    pub one2: BasicBlock,
    pub x: Value,
    pub y: Value,
    pub c1: Value,
    pub c2: Value,
    pub al: Value,
    pub arr: Value,
    pub ld: Value,
    pub add: Value,
    pub mul: Value,
    pub st: Value,
    pub stagg: Value,
    pub agg: Value,
    pub gp: Value,
    pub gep: Value,
    pub call: Value,
    pub br: Value,
    pub bra: Value,
    pub jmp: Value,
    pub jmpa: Value,
    pub ret: Value,
}

pub fn i32t() -> Type {
    Type::get_i32()
}

/// A function with every kind of instruction; some operands used twice.
pub fn zoo() -> Zoo {
    let mut p = Program::new();
    let g0 = p.new_value().integer(7);
    let gi = p.new_value().global_alloc(g0);
    p.set_value_name(gi, Some("@gi".into()));
    let gz = p.new_value().zero_init(Type::get_array(i32t(), 2));
    let ga = p.new_value().global_alloc(gz);
    p.set_value_name(ga, Some("@ga".into()));
    let dec = p.new_func_decl("@dec".into(), vec![Type::get_pointer(i32t())], i32t());
    let two = p.new_func_def("@two".into(), vec![i32t(), i32t()], i32t());
    let nop = p.new_func_decl("@nop".into(), vec![], Type::get_unit());
    let f = p.new_func_def_with_param_names(
        "@f".into(),
        vec![(Some("%a".into()), i32t()), (None, i32t())],
        i32t(),
    );
    let fd = p.func_mut(f);
    let (a, b) = (fd.params()[0], fd.params()[1]);
    let entry = fd.dfg_mut().new_bb().basic_block(Some("%entry".into()));
    let plain = fd.dfg_mut().new_bb().basic_block(Some("%plain".into()));
    let plain2 = fd.dfg_mut().new_bb().basic_block(None);
    let one = fd.dfg_mut().new_bb().basic_block_with_params(Some("%one".into()), vec![i32t()]);
    let one2 = fd.dfg_mut().new_bb().basic_block_with_param_names(None, vec![(Some("%y".into()), i32t())]);
    let x = fd.dfg().bb(one).params()[0];
    let y = fd.dfg().bb(one2).params()[0];
    let d = fd.dfg_mut();
    let c1 = d.new_value().integer(1);
    let c2 = d.new_value().integer(-2);
    let al = d.new_value().alloc(i32t());
    let arr = d.new_value().alloc(Type::get_array(i32t(), 2));
    let ld = d.new_value().load(gi);
    let add = d.new_value().binary(BinaryOp::Add, a, c1);
    let mul = d.new_value().binary(BinaryOp::Mul, add, add);
    let st = d.new_value().store(add, al);
    let agg = d.new_value().aggregate(vec![c1, c1]);
    let stagg = d.new_value().store(agg, arr);
    let gp = d.new_value().get_ptr(al, c1);
    let gep = d.new_value().get_elem_ptr(arr, c1);
    let call = d.new_value().call(two, vec![add, add]);
    let br = d.new_value().branch(ld, plain, plain2);
    let bra = d.new_value().branch_with_args(mul, one, one2, vec![add], vec![call]);
    let jmp = d.new_value().jump(plain2);
    let jmpa = d.new_value().jump_with_args(one, vec![add]);
    let ret = d.new_value().ret(Some(mul));
    let l = fd.layout_mut();
    l.bbs_mut().extend([entry, plain, plain2, one, one2]);
    l.bb_mut(entry).insts_mut().extend([al, arr, ld, add, mul, st, stagg, gp, gep, call, br]);
    l.bb_mut(plain).insts_mut().extend([bra]);
    l.bb_mut(plain2).insts_mut().extend([jmpa]);
    l.bb_mut(one).insts_mut().extend([jmp]);
    l.bb_mut(one2).insts_mut().extend([ret]);
    Zoo {
        p, gi, ga, f, dec, two, nop, a, b, entry, plain, plain2, one, one2, x, y, c1, c2, al, arr, ld, add, mul, st,
        stagg, agg, gp, gep, call, br, bra, jmp, jmpa, ret,
    }
}

pub fn bb_data<'a>(d: &'a DataFlowGraph, b: BasicBlock) -> &'a BasicBlockData {
    d.bb(b)
}

pub const OPS: [BinaryOp; 17] = [
    BinaryOp::NotEq,
    BinaryOp::Eq,
    BinaryOp::Gt,
    BinaryOp::Lt,
    BinaryOp::Ge,
    BinaryOp::Le,
    BinaryOp::Add,
    BinaryOp::Sub,
    BinaryOp::Mul,
    BinaryOp::Div,
    BinaryOp::Mod,
    BinaryOp::And,
    BinaryOp::Or,
    BinaryOp::Xor,
    BinaryOp::Shl,
    BinaryOp::Shr,
    BinaryOp::Sar,
];

#[allow(unused)]
fn _unused(_: &Integer) {}
