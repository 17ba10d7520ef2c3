//! Hand-written declarations of the part of the LLVM-C and Z3 C APIs that the engine uses.
#![allow(non_snake_case, non_camel_case_types)]
use std::os::raw::{c_char, c_double, c_int, c_uint, c_ulonglong, c_void};
pub type R = *mut c_void; // any LLVM-C reference
extern "C" {
    pub fn LLVMContextCreate() -> R;
    pub fn LLVMCreateMemoryBufferWithMemoryRangeCopy(d: *const c_char, n: usize, name: *const c_char) -> R;
    pub fn LLVMParseBitcodeInContext2(ctx: R, buf: R, out: *mut R) -> c_int;
    pub fn LLVMGetModuleDataLayout(m: R) -> R;
    pub fn LLVMGetFirstFunction(m: R) -> R;
    pub fn LLVMGetNextFunction(f: R) -> R;
    pub fn LLVMGetFirstGlobal(m: R) -> R;
    pub fn LLVMGetNextGlobal(f: R) -> R;
    pub fn LLVMGetFirstGlobalAlias(m: R) -> R;
    pub fn LLVMGetNextGlobalAlias(f: R) -> R;
    pub fn LLVMAliasGetAliasee(f: R) -> R;
    pub fn LLVMIsDeclaration(v: R) -> c_int;
    pub fn LLVMGetLinkage(v: R) -> c_int;
    pub fn LLVMGetValueName2(v: R, len: *mut usize) -> *const c_char;
    pub fn LLVMGetFirstBasicBlock(f: R) -> R;
    pub fn LLVMGetNextBasicBlock(f: R) -> R;
    pub fn LLVMGetFirstInstruction(b: R) -> R;
    pub fn LLVMGetNextInstruction(i: R) -> R;
    pub fn LLVMCountParams(f: R) -> c_uint;
    pub fn LLVMGetParam(f: R, i: c_uint) -> R;
    pub fn LLVMGetInstructionOpcode(i: R) -> c_int;
    pub fn LLVMGetNumOperands(v: R) -> c_int;
    pub fn LLVMGetOperand(v: R, i: c_uint) -> R;
    pub fn LLVMTypeOf(v: R) -> R;
    pub fn LLVMGetTypeKind(t: R) -> c_int;
    pub fn LLVMGetIntTypeWidth(t: R) -> c_uint;
    pub fn LLVMGetElementType(t: R) -> R;
    pub fn LLVMGetArrayLength2(t: R) -> u64;
    pub fn LLVMGetVectorSize(t: R) -> c_uint;
    pub fn LLVMCountStructElementTypes(t: R) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: R, i: c_uint) -> R;
    pub fn LLVMABISizeOfType(td: R, t: R) -> c_ulonglong;
    pub fn LLVMOffsetOfElement(td: R, t: R, i: c_uint) -> c_ulonglong;
    pub fn LLVMGetValueKind(v: R) -> c_int;
    pub fn LLVMConstIntGetZExtValue(v: R) -> c_ulonglong;
    pub fn LLVMConstRealGetDouble(v: R, l: *mut c_int) -> c_double;
    pub fn LLVMGetAggregateElement(v: R, i: c_uint) -> R;
    pub fn LLVMGetRawDataValues(v: R, n: *mut usize) -> *const c_char;
    pub fn LLVMGetConstOpcode(v: R) -> c_int;
    pub fn LLVMGetInitializer(v: R) -> R;
    pub fn LLVMIsGlobalConstant(v: R) -> c_int;
    pub fn LLVMGlobalGetValueType(v: R) -> R;
    pub fn LLVMGetAlignment(v: R) -> c_uint;
    pub fn LLVMGetICmpPredicate(v: R) -> c_int;
    pub fn LLVMGetFCmpPredicate(v: R) -> c_int;
    pub fn LLVMGetNumSuccessors(v: R) -> c_uint;
    pub fn LLVMGetSuccessor(v: R, i: c_uint) -> R;
    pub fn LLVMGetSwitchCaseValue(v: R, i: c_uint) -> R;
    pub fn LLVMIsConditional(v: R) -> c_int;
    pub fn LLVMGetCondition(v: R) -> R;
    pub fn LLVMCountIncoming(v: R) -> c_uint;
    pub fn LLVMGetIncomingValue(v: R, i: c_uint) -> R;
    pub fn LLVMGetIncomingBlock(v: R, i: c_uint) -> R;
    pub fn LLVMGetGEPSourceElementType(v: R) -> R;
    pub fn LLVMGetNumIndices(v: R) -> c_uint;
    pub fn LLVMGetIndices(v: R) -> *const c_uint;
    pub fn LLVMGetAtomicRMWBinOp(v: R) -> c_int;
    pub fn LLVMGetCalledValue(v: R) -> R;
    pub fn LLVMGetNumArgOperands(v: R) -> c_uint;
    pub fn LLVMGetAllocatedType(v: R) -> R;
    pub fn LLVMIsAInlineAsm(v: R) -> R;
    pub fn LLVMGetInlineAsmAsmString(v: R, n: *mut usize) -> *const c_char;
    pub fn LLVMGetNumMaskElements(v: R) -> c_uint;
    pub fn LLVMGetMaskValue(v: R, i: c_uint) -> c_int;
    pub fn LLVMGetNormalDest(v: R) -> R;
    pub fn LLVMPrintValueToString(v: R) -> *mut c_char;
    pub fn LLVMDisposeMessage(m: *mut c_char);
}
pub type Z = *mut c_void;
extern "C" {
    pub fn Z3_mk_config() -> Z;
    pub fn Z3_set_param_value(c: Z, k: *const c_char, v: *const c_char);
    pub fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    pub fn Z3_mk_context(c: Z) -> Z;
    pub fn Z3_mk_solver_for_logic(c: Z, s: Z) -> Z;
    pub fn Z3_mk_simple_solver(c: Z) -> Z;
    pub fn Z3_solver_inc_ref(c: Z, s: Z);
    pub fn Z3_solver_dec_ref(c: Z, s: Z);
    pub fn Z3_solver_push(c: Z, s: Z);
    pub fn Z3_solver_pop(c: Z, s: Z, n: c_uint);
    pub fn Z3_solver_assert(c: Z, s: Z, a: Z);
    pub fn Z3_solver_check(c: Z, s: Z) -> c_int;
    pub fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    pub fn Z3_solver_set_params(c: Z, s: Z, p: Z);
    pub fn Z3_solver_to_string(c: Z, s: Z) -> *const c_char;
    pub fn Z3_mk_params(c: Z) -> Z;
    pub fn Z3_params_inc_ref(c: Z, p: Z);
    pub fn Z3_params_set_uint(c: Z, p: Z, k: Z, v: c_uint);
    pub fn Z3_model_inc_ref(c: Z, m: Z);
    pub fn Z3_model_dec_ref(c: Z, m: Z);
    pub fn Z3_model_eval(c: Z, m: Z, a: Z, complete: bool, out: *mut Z) -> bool;
    pub fn Z3_get_numeral_uint64(c: Z, a: Z, out: *mut u64) -> bool;
    pub fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z;
    pub fn Z3_mk_int_symbol(c: Z, i: c_int) -> Z;
    pub fn Z3_mk_bv_sort(c: Z, w: c_uint) -> Z;
    pub fn Z3_mk_const(c: Z, sym: Z, sort: Z) -> Z;
    pub fn Z3_mk_unsigned_int64(c: Z, v: u64, sort: Z) -> Z;
    pub fn Z3_mk_true(c: Z) -> Z;
    pub fn Z3_mk_false(c: Z) -> Z;
    pub fn Z3_mk_eq(c: Z, a: Z, b: Z) -> Z;
    pub fn Z3_mk_not(c: Z, a: Z) -> Z;
    pub fn Z3_mk_and(c: Z, n: c_uint, a: *const Z) -> Z;
    pub fn Z3_mk_or(c: Z, n: c_uint, a: *const Z) -> Z;
    pub fn Z3_mk_xor(c: Z, a: Z, b: Z) -> Z;
    pub fn Z3_mk_ite(c: Z, a: Z, b: Z, d: Z) -> Z;
    pub fn Z3_mk_bvadd(c: Z, a: Z, b: Z) -> Z;
    pub fn Z3_mk_bvsub(c: Z, a: Z, b: Z) -> Z;
    pub fn Z3_mk_bvmul(c: Z, a: Z, b: Z) -> Z;
    pub fn Z3_mk_bvudiv(c: Z, a: Z, b: Z) -> Z;
    pub fn Z3_mk_bvsdiv(c: Z, a: Z, b: Z) -> Z;
    pub fn Z3_mk_bvurem(c: Z, a: Z, b: Z) -> Z;
    pub fn Z3_mk_bvsrem(c: Z, a: Z, b: Z) -> Z;
    pub fn Z3_mk_bvand(c: Z, a: Z, b: Z) -> Z;
    pub fn Z3_mk_bvor(c: Z, a: Z, b: Z) -> Z;
    pub fn Z3_mk_bvxor(c: Z, a: Z, b: Z) -> Z;
    pub fn Z3_mk_bvshl(c: Z, a: Z, b: Z) -> Z;
    pub fn Z3_mk_bvlshr(c: Z, a: Z, b: Z) -> Z;
    pub fn Z3_mk_bvashr(c: Z, a: Z, b: Z) -> Z;
    pub fn Z3_mk_bvult(c: Z, a: Z, b: Z) -> Z;
    pub fn Z3_mk_bvule(c: Z, a: Z, b: Z) -> Z;
    pub fn Z3_mk_bvslt(c: Z, a: Z, b: Z) -> Z;
    pub fn Z3_mk_bvsle(c: Z, a: Z, b: Z) -> Z;
    pub fn Z3_mk_concat(c: Z, a: Z, b: Z) -> Z;
    pub fn Z3_mk_extract(c: Z, hi: c_uint, lo: c_uint, a: Z) -> Z;
}
pub fn name_of(v: R) -> String {
    unsafe {
        let mut n = 0usize;
        let p = LLVMGetValueName2(v, &mut n);
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
    }
}
pub fn print_value(v: R) -> String {
    unsafe {
        let p = LLVMPrintValueToString(v);
        let s = std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned();
        LLVMDisposeMessage(p);
        s
    }
}
