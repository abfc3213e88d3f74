//! LLVM IR text means what the program means.
use crate::c02::llvm_text;
use crate::fam::{self, Prog};
use crate::mach::compare;
use crate::sym;

fn check_llvm(x: Prog) {
    let args: Vec<i32> = (0..x.args).map(|_| sym::i32()).collect();
    let ins = [sym::i32(), sym::i32()];
    let t = llvm_text(&x.p);
    compare(&x.p, &t, x.at, &args, &ins, x.fuel);
}

fn llvm_arith() {
    check_llvm(fam::arith(false))
}
fn llvm_mem() {
    check_llvm(fam::mem(false))
}
fn llvm_flow() {
    check_llvm(fam::flow(false))
}
fn llvm_call() {
    check_llvm(fam::call(false))
}
fn llvm_names() {
    check_llvm(fam::names(false, false))
}
fn llvm_names3() {
    check_llvm(fam::names(false, true))
}
fn llvm_types() {
    check_llvm(fam::types(false, 1))
}
fn llvm_types2() {
    check_llvm(fam::types(false, 2))
}
fn llvm_long() {
    check_llvm(fam::long(false))
}

fn llvm_ops() {
    check_llvm(fam::ops(false, false))
}
fn llvm_ops2() {
    check_llvm(fam::ops(false, true))
}

fn llvm_many() {
    check_llvm(fam::many(false));
}

fn llvm_aggs() {
    check_llvm(fam::aggs(false));
}

fn llvm_huge() {
    check_llvm(fam::huge(false));
}

crate::harnesses! {
    llvm_huge
    llvm_many llvm_aggs
    llvm_ops llvm_ops2
    llvm_arith llvm_mem llvm_flow llvm_call llvm_names llvm_names3 llvm_types llvm_types2 llvm_long
}
