//! Minimal hand-written bindings to the z3 C API.
#![allow(non_camel_case_types, non_snake_case, dead_code)]
use std::os::raw::{c_char, c_int, c_uint, c_void};
pub type Ctx = *mut c_void;
pub type Config = *mut c_void;
pub type Ast = *mut c_void;
pub type Sort = *mut c_void;
pub type Solver = *mut c_void;
pub type Model = *mut c_void;
pub type Symbol = *mut c_void;
pub type Params = *mut c_void;
pub type Tactic = *mut c_void;
extern "C" {
    pub fn Z3_mk_config() -> Config;
    pub fn Z3_set_param_value(c: Config, k: *const c_char, v: *const c_char);
    pub fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    pub fn Z3_mk_context_rc(c: Config) -> Ctx;
    pub fn Z3_del_context(c: Ctx);
    pub fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    pub fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
    pub fn Z3_inc_ref(c: Ctx, a: Ast);
    pub fn Z3_dec_ref(c: Ctx, a: Ast);
    pub fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> Symbol;
    pub fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    pub fn Z3_mk_const(c: Ctx, s: Symbol, ty: Sort) -> Ast;
    pub fn Z3_mk_unsigned_int64(c: Ctx, v: u64, ty: Sort) -> Ast;
    pub fn Z3_mk_numeral(c: Ctx, s: *const c_char, ty: Sort) -> Ast;
    pub fn Z3_mk_true(c: Ctx) -> Ast;
    pub fn Z3_mk_false(c: Ctx) -> Ast;
    pub fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    pub fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    pub fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvneg(c: Ctx, a: Ast) -> Ast;
    pub fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
    pub fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    pub fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    pub fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    pub fn Z3_mk_solver_for_logic(c: Ctx, s: Symbol) -> Solver;
    pub fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Symbol;
    pub fn Z3_mk_tactic(c: Ctx, s: *const c_char) -> Tactic;
    pub fn Z3_tactic_inc_ref(c: Ctx, t: Tactic);
    pub fn Z3_tactic_dec_ref(c: Ctx, t: Tactic);
    pub fn Z3_tactic_and_then(c: Ctx, a: Tactic, b: Tactic) -> Tactic;
    pub fn Z3_mk_solver_from_tactic(c: Ctx, t: Tactic) -> Solver;
    pub fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    pub fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    pub fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    pub fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    pub fn Z3_solver_push(c: Ctx, s: Solver);
    pub fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    pub fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    pub fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    pub fn Z3_solver_get_reason_unknown(c: Ctx, s: Solver) -> *const c_char;
    pub fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    pub fn Z3_model_inc_ref(c: Ctx, m: Model);
    pub fn Z3_model_dec_ref(c: Ctx, m: Model);
    pub fn Z3_model_eval(c: Ctx, m: Model, a: Ast, complete: bool, out: *mut Ast) -> bool;
    pub fn Z3_get_numeral_uint64(c: Ctx, a: Ast, v: *mut u64) -> bool;
    pub fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    pub fn Z3_mk_params(c: Ctx) -> Params;
    pub fn Z3_params_inc_ref(c: Ctx, p: Params);
    pub fn Z3_params_set_uint(c: Ctx, p: Params, k: Symbol, v: c_uint);
    pub fn Z3_params_set_bool(c: Ctx, p: Params, k: Symbol, v: bool);
    pub fn Z3_get_full_version() -> *const c_char;
}
