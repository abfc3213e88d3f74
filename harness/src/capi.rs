//! The C side (cshim.c, which includes koopa.h).
use std::ffi::{c_char, c_void};

pub type P = *const c_void;

extern "C" {
    pub fn kc_len(s: P) -> u32;
    pub fn kc_at(s: P, i: u32) -> P;
    pub fn kc_kind(s: P) -> i32;
    pub fn kc_values(p: P) -> P;
    pub fn kc_funcs(p: P) -> P;
    pub fn kc_type_tag(t: P) -> i32;
    pub fn kc_array_base(t: P) -> P;
    pub fn kc_array_len(t: P) -> usize;
    pub fn kc_pointer_base(t: P) -> P;
    pub fn kc_fun_params(t: P) -> P;
    pub fn kc_fun_ret(t: P) -> P;
    pub fn kc_f_ty(f: P) -> P;
    pub fn kc_f_name(f: P) -> *const c_char;
    pub fn kc_f_params(f: P) -> P;
    pub fn kc_f_bbs(f: P) -> P;
    pub fn kc_b_name(b: P) -> *const c_char;
    pub fn kc_b_params(b: P) -> P;
    pub fn kc_b_used_by(b: P) -> P;
    pub fn kc_b_insts(b: P) -> P;
    pub fn kc_v_ty(v: P) -> P;
    pub fn kc_v_name(v: P) -> *const c_char;
    pub fn kc_v_used_by(v: P) -> P;
    pub fn kc_v_tag(v: P) -> i32;
    pub fn kc_v_int(v: P) -> i32;
    pub fn kc_v_index(v: P) -> usize;
    pub fn kc_v_op(v: P) -> i32;
    pub fn kc_v_ptr(v: P, i: i32) -> P;
    pub fn kc_v_slice(v: P, i: i32) -> P;
    pub fn kc_size(what: i32) -> usize;
    pub fn kc_set_slice(s: P, b: *const P, n: u32, kind: i32);
    pub fn kc_set_type(t: P, tag: i32, base: P, len: usize);
    pub fn kc_set_f(f: P, ty: P, name: *const c_char);
    pub fn kc_set_b(b: P, name: *const c_char);
    pub fn kc_set_v(v: P, ty: P, name: *const c_char);
    pub fn kc_set_kind(v: P, tag: i32, n: i32, a: P, b: P, c: P);
    pub fn kc_parse_file(s: *const c_char, p: *mut P) -> i32;
    pub fn kc_parse_string(s: *const c_char, p: *mut P) -> i32;
    pub fn kc_parse_stdin(p: *mut P) -> i32;
    pub fn kc_parse_raw(f: i32, p: *mut P) -> i32;
    pub fn kc_delete(p: P);
    pub fn kc_dump_file(llvm: i32, p: P, s: *const c_char) -> i32;
    pub fn kc_dump_string(llvm: i32, p: P, s: *mut c_char, n: *mut usize) -> i32;
    pub fn kc_dump_stdout(llvm: i32, p: P) -> i32;
    pub fn kc_dump_raw(llvm: i32, p: P, f: i32) -> i32;
    pub fn kc_new_builder() -> P;
    pub fn kc_delete_builder(b: P);
    pub fn kc_build(out: P, b: P, p: P);
    pub fn kc_generate(raw: P, p: *mut P) -> i32;
}

/// Room for a structure of the C side.
pub struct Mem(Vec<u64>);

impl Mem {
    pub fn new(what: i32) -> Self {
        Mem(vec![0; unsafe { kc_size(what) } / 8])
    }
    pub fn p(&self) -> P {
        self.0.as_ptr() as P
    }
}

pub fn list(s: P) -> Vec<P> {
    unsafe { (0..kc_len(s)).map(|i| kc_at(s, i)).collect() }
}

/// The items of a list, which has to be one of `kind`.
pub fn items(s: P, kind: i32) -> Vec<P> {
    crate::sym::check(unsafe { kc_kind(s) } == kind, "a list has items of another kind");
    list(s)
}

pub fn text(s: *const c_char) -> Option<String> {
    if s.is_null() {
        return None;
    }
    let b = unsafe { std::ffi::CStr::from_ptr(s) }.to_bytes();
    Some(String::from_utf8(b.to_vec()).unwrap())
}
