/* What a C program sees of libkoopa, through its header. */
#include "koopa.h"

typedef const koopa_raw_slice_t *slice;

uint32_t kc_len(slice s) { return s->len; }
const void *kc_at(slice s, uint32_t i) { return s->buffer[i]; }
int kc_kind(slice s) {
  switch (s->kind) {
    case KOOPA_RSIK_UNKNOWN: return 0;
    case KOOPA_RSIK_TYPE: return 1;
    case KOOPA_RSIK_FUNCTION: return 2;
    case KOOPA_RSIK_BASIC_BLOCK: return 3;
    case KOOPA_RSIK_VALUE: return 4;
  }
  return -1;
}

slice kc_values(const koopa_raw_program_t *p) { return &p->values; }
slice kc_funcs(const koopa_raw_program_t *p) { return &p->funcs; }

int kc_type_tag(koopa_raw_type_t t) {
  switch (t->tag) {
    case KOOPA_RTT_INT32: return 0;
    case KOOPA_RTT_UNIT: return 1;
    case KOOPA_RTT_ARRAY: return 2;
    case KOOPA_RTT_POINTER: return 3;
    case KOOPA_RTT_FUNCTION: return 4;
  }
  return -1;
}
koopa_raw_type_t kc_array_base(koopa_raw_type_t t) { return t->data.array.base; }
size_t kc_array_len(koopa_raw_type_t t) { return t->data.array.len; }
koopa_raw_type_t kc_pointer_base(koopa_raw_type_t t) { return t->data.pointer.base; }
slice kc_fun_params(koopa_raw_type_t t) { return &t->data.function.params; }
koopa_raw_type_t kc_fun_ret(koopa_raw_type_t t) { return t->data.function.ret; }

koopa_raw_type_t kc_f_ty(koopa_raw_function_t f) { return f->ty; }
const char *kc_f_name(koopa_raw_function_t f) { return f->name; }
slice kc_f_params(koopa_raw_function_t f) { return &f->params; }
slice kc_f_bbs(koopa_raw_function_t f) { return &f->bbs; }

const char *kc_b_name(koopa_raw_basic_block_t b) { return b->name; }
slice kc_b_params(koopa_raw_basic_block_t b) { return &b->params; }
slice kc_b_used_by(koopa_raw_basic_block_t b) { return &b->used_by; }
slice kc_b_insts(koopa_raw_basic_block_t b) { return &b->insts; }

koopa_raw_type_t kc_v_ty(koopa_raw_value_t v) { return v->ty; }
const char *kc_v_name(koopa_raw_value_t v) { return v->name; }
slice kc_v_used_by(koopa_raw_value_t v) { return &v->used_by; }
int kc_v_tag(koopa_raw_value_t v) {
  switch (v->kind.tag) {
    case KOOPA_RVT_INTEGER: return 0;
    case KOOPA_RVT_ZERO_INIT: return 1;
    case KOOPA_RVT_UNDEF: return 2;
    case KOOPA_RVT_AGGREGATE: return 3;
    case KOOPA_RVT_FUNC_ARG_REF: return 4;
    case KOOPA_RVT_BLOCK_ARG_REF: return 5;
    case KOOPA_RVT_ALLOC: return 6;
    case KOOPA_RVT_GLOBAL_ALLOC: return 7;
    case KOOPA_RVT_LOAD: return 8;
    case KOOPA_RVT_STORE: return 9;
    case KOOPA_RVT_GET_PTR: return 10;
    case KOOPA_RVT_GET_ELEM_PTR: return 11;
    case KOOPA_RVT_BINARY: return 12;
    case KOOPA_RVT_BRANCH: return 13;
    case KOOPA_RVT_JUMP: return 14;
    case KOOPA_RVT_CALL: return 15;
    case KOOPA_RVT_RETURN: return 16;
  }
  return -1;
}
int32_t kc_v_int(koopa_raw_value_t v) { return v->kind.data.integer.value; }
size_t kc_v_index(koopa_raw_value_t v) {
  return v->kind.tag == KOOPA_RVT_FUNC_ARG_REF ? v->kind.data.func_arg_ref.index
                                              : v->kind.data.block_arg_ref.index;
}
int kc_v_op(koopa_raw_value_t v) {
  switch (v->kind.data.binary.op) {
    case KOOPA_RBO_NOT_EQ: return 0;
    case KOOPA_RBO_EQ: return 1;
    case KOOPA_RBO_GT: return 2;
    case KOOPA_RBO_LT: return 3;
    case KOOPA_RBO_GE: return 4;
    case KOOPA_RBO_LE: return 5;
    case KOOPA_RBO_ADD: return 6;
    case KOOPA_RBO_SUB: return 7;
    case KOOPA_RBO_MUL: return 8;
    case KOOPA_RBO_DIV: return 9;
    case KOOPA_RBO_MOD: return 10;
    case KOOPA_RBO_AND: return 11;
    case KOOPA_RBO_OR: return 12;
    case KOOPA_RBO_XOR: return 13;
    case KOOPA_RBO_SHL: return 14;
    case KOOPA_RBO_SHR: return 15;
    case KOOPA_RBO_SAR: return 16;
  }
  return -1;
}
/* the i-th operand that is a single pointer */
const void *kc_v_ptr(koopa_raw_value_t v, int i) {
  switch (v->kind.tag) {
    case KOOPA_RVT_GLOBAL_ALLOC: return v->kind.data.global_alloc.init;
    case KOOPA_RVT_LOAD: return v->kind.data.load.src;
    case KOOPA_RVT_STORE: return i ? v->kind.data.store.dest : v->kind.data.store.value;
    case KOOPA_RVT_GET_PTR: return i ? v->kind.data.get_ptr.index : v->kind.data.get_ptr.src;
    case KOOPA_RVT_GET_ELEM_PTR: return i ? v->kind.data.get_elem_ptr.index : v->kind.data.get_elem_ptr.src;
    case KOOPA_RVT_BINARY: return i ? v->kind.data.binary.rhs : v->kind.data.binary.lhs;
    case KOOPA_RVT_BRANCH:
      return i == 0 ? (const void *)v->kind.data.branch.cond
                    : i == 1 ? (const void *)v->kind.data.branch.true_bb : (const void *)v->kind.data.branch.false_bb;
    case KOOPA_RVT_JUMP: return v->kind.data.jump.target;
    case KOOPA_RVT_CALL: return v->kind.data.call.callee;
    case KOOPA_RVT_RETURN: return v->kind.data.ret.value;
    default: return 0;
  }
}
/* the i-th operand that is a list */
slice kc_v_slice(koopa_raw_value_t v, int i) {
  switch (v->kind.tag) {
    case KOOPA_RVT_AGGREGATE: return &v->kind.data.aggregate.elems;
    case KOOPA_RVT_BRANCH: return i ? &v->kind.data.branch.false_args : &v->kind.data.branch.true_args;
    case KOOPA_RVT_JUMP: return &v->kind.data.jump.args;
    case KOOPA_RVT_CALL: return &v->kind.data.call.args;
    default: return 0;
  }
}

/* writing: memory comes from the caller */
size_t kc_size(int what) {
  switch (what) {
    case 0: return sizeof(koopa_raw_program_t);
    case 1: return sizeof(koopa_raw_type_kind_t);
    case 2: return sizeof(koopa_raw_function_data_t);
    case 3: return sizeof(koopa_raw_basic_block_data_t);
    default: return sizeof(koopa_raw_value_data_t);
  }
}
static const koopa_raw_slice_item_kind_t item_kinds[] = {
    KOOPA_RSIK_UNKNOWN, KOOPA_RSIK_TYPE, KOOPA_RSIK_FUNCTION, KOOPA_RSIK_BASIC_BLOCK, KOOPA_RSIK_VALUE};
void kc_set_slice(koopa_raw_slice_t *s, const void **b, uint32_t n, int kind) {
  s->buffer = b;
  s->len = n;
  s->kind = item_kinds[kind];
}
void kc_set_type(koopa_raw_type_kind_t *t, int tag, koopa_raw_type_t base, size_t len) {
  switch (tag) {
    case 0: t->tag = KOOPA_RTT_INT32; break;
    case 1: t->tag = KOOPA_RTT_UNIT; break;
    case 2: t->tag = KOOPA_RTT_ARRAY; t->data.array.base = base; t->data.array.len = len; break;
    case 3: t->tag = KOOPA_RTT_POINTER; t->data.pointer.base = base; break;
    default: t->tag = KOOPA_RTT_FUNCTION; t->data.function.ret = base; break;
  }
}
void kc_set_f(koopa_raw_function_data_t *f, koopa_raw_type_t ty, const char *name) {
  f->ty = ty;
  f->name = name;
}
void kc_set_b(koopa_raw_basic_block_data_t *b, const char *name) { b->name = name; }
void kc_set_v(koopa_raw_value_data_t *v, koopa_raw_type_t ty, const char *name) {
  v->ty = ty;
  v->name = name;
}
/* the tag, and everything but lists; a, b, c as kc_v_ptr counts them */
void kc_set_kind(koopa_raw_value_data_t *v, int tag, int32_t n, const void *a, const void *b, const void *c) {
  static const koopa_raw_binary_op_t ops[] = {
      KOOPA_RBO_NOT_EQ, KOOPA_RBO_EQ, KOOPA_RBO_GT, KOOPA_RBO_LT, KOOPA_RBO_GE, KOOPA_RBO_LE,
      KOOPA_RBO_ADD, KOOPA_RBO_SUB, KOOPA_RBO_MUL, KOOPA_RBO_DIV, KOOPA_RBO_MOD, KOOPA_RBO_AND,
      KOOPA_RBO_OR, KOOPA_RBO_XOR, KOOPA_RBO_SHL, KOOPA_RBO_SHR, KOOPA_RBO_SAR};
  switch (tag) {
    case 0: v->kind.tag = KOOPA_RVT_INTEGER; v->kind.data.integer.value = n; break;
    case 1: v->kind.tag = KOOPA_RVT_ZERO_INIT; break;
    case 2: v->kind.tag = KOOPA_RVT_UNDEF; break;
    case 3: v->kind.tag = KOOPA_RVT_AGGREGATE; break;
    case 4: v->kind.tag = KOOPA_RVT_FUNC_ARG_REF; v->kind.data.func_arg_ref.index = n; break;
    case 5: v->kind.tag = KOOPA_RVT_BLOCK_ARG_REF; v->kind.data.block_arg_ref.index = n; break;
    case 6: v->kind.tag = KOOPA_RVT_ALLOC; break;
    case 7: v->kind.tag = KOOPA_RVT_GLOBAL_ALLOC; v->kind.data.global_alloc.init = a; break;
    case 8: v->kind.tag = KOOPA_RVT_LOAD; v->kind.data.load.src = a; break;
    case 9: v->kind.tag = KOOPA_RVT_STORE; v->kind.data.store.value = a; v->kind.data.store.dest = b; break;
    case 10: v->kind.tag = KOOPA_RVT_GET_PTR; v->kind.data.get_ptr.src = a; v->kind.data.get_ptr.index = b; break;
    case 11:
      v->kind.tag = KOOPA_RVT_GET_ELEM_PTR;
      v->kind.data.get_elem_ptr.src = a;
      v->kind.data.get_elem_ptr.index = b;
      break;
    case 12:
      v->kind.tag = KOOPA_RVT_BINARY;
      v->kind.data.binary.op = ops[n];
      v->kind.data.binary.lhs = a;
      v->kind.data.binary.rhs = b;
      break;
    case 13:
      v->kind.tag = KOOPA_RVT_BRANCH;
      v->kind.data.branch.cond = a;
      v->kind.data.branch.true_bb = b;
      v->kind.data.branch.false_bb = c;
      break;
    case 14: v->kind.tag = KOOPA_RVT_JUMP; v->kind.data.jump.target = a; break;
    case 15: v->kind.tag = KOOPA_RVT_CALL; v->kind.data.call.callee = a; break;
    default: v->kind.tag = KOOPA_RVT_RETURN; v->kind.data.ret.value = a; break;
  }
}

/* calling */
static int code(koopa_error_code_t e) {
  switch (e) {
    case KOOPA_EC_SUCCESS: return 0;
    case KOOPA_EC_INVALID_UTF8_STRING: return 1;
    case KOOPA_EC_INVALID_FILE: return 2;
    case KOOPA_EC_INVALID_KOOPA_PROGRAM: return 3;
    case KOOPA_EC_IO_ERROR: return 4;
    case KOOPA_EC_NULL_BYTE_ERROR: return 5;
    case KOOPA_EC_INSUFFICIENT_BUFFER_LENGTH: return 6;
    case KOOPA_EC_RAW_SLICE_ITEM_KIND_MISMATCH: return 7;
    case KOOPA_EC_NULL_POINTER_ERROR: return 8;
    case KOOPA_EC_TYPE_MISMATCH: return 9;
    case KOOPA_EC_FUNC_PARAM_NUM_MISMATCH: return 10;
  }
  return -1;
}
int kc_parse_file(const char *s, koopa_program_t *p) { return code(koopa_parse_from_file(s, p)); }
int kc_parse_string(const char *s, koopa_program_t *p) { return code(koopa_parse_from_string(s, p)); }
int kc_parse_stdin(koopa_program_t *p) { return code(koopa_parse_from_stdin(p)); }
int kc_parse_raw(int f, koopa_program_t *p) { return code(koopa_parse_from_raw(f, p)); }
void kc_delete(koopa_program_t p) { koopa_delete_program(p); }
int kc_dump_file(int llvm, koopa_program_t p, const char *s) {
  return code(llvm ? koopa_dump_llvm_to_file(p, s) : koopa_dump_to_file(p, s));
}
int kc_dump_string(int llvm, koopa_program_t p, char *s, size_t *n) {
  return code(llvm ? koopa_dump_llvm_to_string(p, s, n) : koopa_dump_to_string(p, s, n));
}
int kc_dump_stdout(int llvm, koopa_program_t p) { return code(llvm ? koopa_dump_llvm_to_stdout(p) : koopa_dump_to_stdout(p)); }
int kc_dump_raw(int llvm, koopa_program_t p, int f) {
  return code(llvm ? koopa_dump_llvm_to_raw(p, f) : koopa_dump_to_raw(p, f));
}
koopa_raw_program_builder_t kc_new_builder(void) { return koopa_new_raw_program_builder(); }
void kc_delete_builder(koopa_raw_program_builder_t b) { koopa_delete_raw_program_builder(b); }
void kc_build(koopa_raw_program_t *out, koopa_raw_program_builder_t b, koopa_program_t p) {
  *out = koopa_build_raw_program(b, p);
}
int kc_generate(const koopa_raw_program_t *raw, koopa_program_t *p) { return code(koopa_generate_raw_to_koopa(raw, p)); }
