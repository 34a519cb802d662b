//! Hand-written bindings: the part of the LLVM-C and z3 C APIs that the engine uses.
#![allow(non_camel_case_types, dead_code)]
use std::ffi::{c_char, c_double, c_int, c_longlong, c_uint, c_ulonglong, c_void};
pub type P = *mut c_void;
extern "C" {
    pub fn LLVMContextCreate() -> P;
    pub fn LLVMCreateMemoryBufferWithContentsOfFile(path: *const c_char, out: *mut P, msg: *mut *mut c_char) -> c_int;
    pub fn LLVMParseBitcodeInContext2(ctx: P, buf: P, out: *mut P) -> c_int;
    pub fn LLVMGetModuleDataLayout(m: P) -> P;
    pub fn LLVMGetFirstFunction(m: P) -> P;
    pub fn LLVMGetNextFunction(f: P) -> P;
    pub fn LLVMGetFirstGlobal(m: P) -> P;
    pub fn LLVMGetNextGlobal(m: P) -> P;
    pub fn LLVMGetFirstGlobalAlias(m: P) -> P;
    pub fn LLVMGetNextGlobalAlias(m: P) -> P;
    pub fn LLVMAliasGetAliasee(m: P) -> P;
    pub fn LLVMGetInitializer(g: P) -> P;
    pub fn LLVMIsGlobalConstant(g: P) -> c_int;
    pub fn LLVMGlobalGetValueType(g: P) -> P;
    pub fn LLVMGetValueName2(v: P, len: *mut usize) -> *const c_char;
    pub fn LLVMIsDeclaration(v: P) -> c_int;
    pub fn LLVMCountParams(f: P) -> c_uint;
    pub fn LLVMGetParam(f: P, i: c_uint) -> P;
    pub fn LLVMGetFirstBasicBlock(f: P) -> P;
    pub fn LLVMGetNextBasicBlock(b: P) -> P;
    pub fn LLVMGetFirstInstruction(b: P) -> P;
    pub fn LLVMGetNextInstruction(i: P) -> P;
    pub fn LLVMGetInstructionOpcode(i: P) -> c_uint;
    pub fn LLVMGetNumOperands(v: P) -> c_int;
    pub fn LLVMGetOperand(v: P, i: c_uint) -> P;
    pub fn LLVMTypeOf(v: P) -> P;
    pub fn LLVMGetTypeKind(t: P) -> c_uint;
    pub fn LLVMGetIntTypeWidth(t: P) -> c_uint;
    pub fn LLVMGetElementType(t: P) -> P;
    pub fn LLVMGetArrayLength2(t: P) -> u64;
    pub fn LLVMGetVectorSize(t: P) -> c_uint;
    pub fn LLVMCountStructElementTypes(t: P) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: P, i: c_uint) -> P;
    pub fn LLVMOffsetOfElement(dl: P, t: P, i: c_uint) -> c_ulonglong;
    pub fn LLVMABISizeOfType(dl: P, t: P) -> c_ulonglong;
    pub fn LLVMStoreSizeOfType(dl: P, t: P) -> c_ulonglong;
    pub fn LLVMTypeIsSized(t: P) -> c_int;
    pub fn LLVMIsAFunction(v: P) -> P;
    pub fn LLVMIsAGlobalVariable(v: P) -> P;
    pub fn LLVMIsAGlobalAlias(v: P) -> P;
    pub fn LLVMIsAConstantExpr(v: P) -> P;
    pub fn LLVMIsAConstantArray(v: P) -> P;
    pub fn LLVMIsAConstantStruct(v: P) -> P;
    pub fn LLVMIsAConstantVector(v: P) -> P;
    pub fn LLVMIsAUndefValue(v: P) -> P;
    pub fn LLVMIsAConstantAggregateZero(v: P) -> P;
    pub fn LLVMIsAConstantDataArray(v: P) -> P;
    pub fn LLVMIsAConstantDataVector(v: P) -> P;
    pub fn LLVMIsAConstantInt(v: P) -> P;
    pub fn LLVMIsAConstantFP(v: P) -> P;
    pub fn LLVMIsAConstantPointerNull(v: P) -> P;
    pub fn LLVMIsAInlineAsm(v: P) -> P;
    pub fn LLVMIsAArgument(v: P) -> P;
    pub fn LLVMConstIntGetZExtValue(v: P) -> c_ulonglong;
    pub fn LLVMConstRealGetDouble(v: P, lossy: *mut c_int) -> c_double;
    pub fn LLVMGetAggregateElement(v: P, i: c_uint) -> P;
    pub fn LLVMGetRawDataValues(v: P, len: *mut usize) -> *const c_char;
    pub fn LLVMGetConstOpcode(v: P) -> c_uint;
    pub fn LLVMGetGEPSourceElementType(v: P) -> P;
    pub fn LLVMGetICmpPredicate(v: P) -> c_uint;
    pub fn LLVMGetFCmpPredicate(v: P) -> c_uint;
    pub fn LLVMGetAllocatedType(v: P) -> P;
    pub fn LLVMGetNumIndices(v: P) -> c_uint;
    pub fn LLVMGetIndices(v: P) -> *const c_uint;
    pub fn LLVMGetNumMaskElements(v: P) -> c_uint;
    pub fn LLVMGetMaskValue(v: P, i: c_uint) -> c_int;
    pub fn LLVMCountIncoming(v: P) -> c_uint;
    pub fn LLVMGetIncomingValue(v: P, i: c_uint) -> P;
    pub fn LLVMGetIncomingBlock(v: P, i: c_uint) -> P;
    pub fn LLVMGetNumSuccessors(v: P) -> c_uint;
    pub fn LLVMGetSuccessor(v: P, i: c_uint) -> P;
    pub fn LLVMGetCondition(v: P) -> P;
    pub fn LLVMGetSwitchCaseValue(v: P, i: c_uint) -> P;
    pub fn LLVMGetSwitchDefaultDest(v: P) -> P;
    pub fn LLVMIsACondBrInst(v: P) -> P;
    pub fn LLVMIsAUncondBrInst(v: P) -> P;
    pub fn LLVMGetCalledValue(v: P) -> P;
    pub fn LLVMGetNumArgOperands(v: P) -> c_uint;
    pub fn LLVMGetArgOperand(v: P, i: c_uint) -> P;
    pub fn LLVMGetNormalDest(v: P) -> P;
    pub fn LLVMGetAtomicRMWBinOp(v: P) -> c_uint;
    pub fn LLVMPrintValueToString(v: P) -> *mut c_char;
    pub fn LLVMGetDebugLocLine(v: P) -> c_uint;
    pub fn LLVMGetDebugLocFilename(v: P, len: *mut c_uint) -> *const c_char;
    pub fn LLVMGetDebugLocDirectory(v: P, len: *mut c_uint) -> *const c_char;
    pub fn LLVMIsAInstruction(v: P) -> P;
    pub fn LLVMIsAIntrinsicInst(v: P) -> P;
    pub fn LLVMGetInlineAsmAsmString(v: P, len: *mut usize) -> *const c_char;
}
extern "C" {
    pub fn Z3_mk_config() -> P;
    pub fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    pub fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    pub fn Z3_mk_context_rc(c: P) -> P;
    pub fn Z3_inc_ref(c: P, a: P);
    pub fn Z3_dec_ref(c: P, a: P);
    pub fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    pub fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    pub fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    pub fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    pub fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    pub fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_not(c: P, a: P) -> P;
    pub fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    pub fn Z3_mk_ite(c: P, i: P, t: P, e: P) -> P;
    pub fn Z3_mk_true(c: P) -> P;
    pub fn Z3_mk_false(c: P) -> P;
    pub fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvnot(c: P, a: P) -> P;
    pub fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    pub fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    pub fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    pub fn Z3_mk_simple_solver(c: P) -> P;
    pub fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    pub fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    pub fn Z3_solver_dec_ref(c: P, s: P);
    pub fn Z3_del_context(c: P);
    pub fn Z3_del_config(c: P);
    pub fn Z3_solver_inc_ref(c: P, s: P);
    pub fn Z3_solver_push(c: P, s: P);
    pub fn Z3_solver_pop(c: P, s: P, n: c_uint);
    pub fn Z3_solver_reset(c: P, s: P);
    pub fn Z3_solver_assert(c: P, s: P, a: P);
    pub fn Z3_solver_check(c: P, s: P) -> c_int;
    pub fn Z3_solver_get_model(c: P, s: P) -> P;
    pub fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
    pub fn Z3_model_inc_ref(c: P, m: P);
    pub fn Z3_model_dec_ref(c: P, m: P);
    pub fn Z3_model_eval(c: P, m: P, a: P, complete: bool, out: *mut P) -> bool;
    pub fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    pub fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    pub fn Z3_get_error_code(c: P) -> c_int;
    pub fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    pub fn Z3_mk_params(c: P) -> P;
    pub fn Z3_params_inc_ref(c: P, p: P);
    pub fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    pub fn Z3_solver_set_params(c: P, s: P, p: P);
    pub fn Z3_get_full_version() -> *const c_char;
}
#[allow(unused)]
type _X = c_longlong;

/// The kind of a value, found by class so that it does not depend on the numbering of the LLVM version.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum VK { Fn, Global, Zero, Int, Fp, Agg, Expr, Asm, Other }
pub unsafe fn kind(v: P) -> VK {
    let is = |f: unsafe extern "C" fn(P) -> P| !f(v).is_null();
    if is(LLVMIsAFunction) { VK::Fn } else if is(LLVMIsAGlobalVariable) || is(LLVMIsAGlobalAlias) { VK::Global }
    else if is(LLVMIsAConstantExpr) { VK::Expr } else if is(LLVMIsAConstantInt) { VK::Int } else if is(LLVMIsAConstantFP) { VK::Fp }
    else if is(LLVMIsAUndefValue) || is(LLVMIsAConstantAggregateZero) || is(LLVMIsAConstantPointerNull) { VK::Zero }
    else if is(LLVMIsAConstantArray) || is(LLVMIsAConstantStruct) || is(LLVMIsAConstantVector) || is(LLVMIsAConstantDataArray) || is(LLVMIsAConstantDataVector) { VK::Agg }
    else if is(LLVMIsAInlineAsm) { VK::Asm } else { VK::Other }
}

extern "C" { fn __cxa_get_globals() -> P; }
/// Makes the C++ runtime a direct dependency, so that it comes before LLVM's copy in symbol lookup.
pub fn runtime() -> bool { unsafe { !__cxa_get_globals().is_null() } }
