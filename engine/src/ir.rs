//! The engine's own compact form of the program: a flat copy of rustc's LLVM IR.
use std::collections::HashMap;

pub type TId = u32;
#[derive(Debug, Clone)]
pub enum TyK { Void, Int(u32), Ptr, Flt(u32), Arr(u64, TId), Struct(Vec<(TId, u64)>), Vec(u32, TId), Other }
#[derive(Debug, Clone)]
pub struct Ty { pub k: TyK, pub size: u64, pub store: u64 }

/// Operand: a register, a small constant, or an entry of the constant pool.
#[derive(Debug, Clone, Copy)]
pub enum O { R(u32), C(u64), K(u32) }

/// A constant in the pool.
#[derive(Debug, Clone)]
pub enum K { I(u128), A(Vec<K>) }

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum B { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FB { Add, Sub, Mul, Div, Rem }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum P { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Cast { Trunc, ZExt, SExt, Bit, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt }

#[derive(Debug, Clone)]
pub enum Callee { Fn(u32), Ptr(O), Asm(String) }

#[derive(Debug, Clone)]
pub enum I {
    Nop,
    Bin { op: B, w: u32, n: u32, a: O, b: O },
    FBin { op: FB, w: u32, a: O, b: O },
    FNeg { w: u32, a: O },
    Cmp { p: P, w: u32, n: u32, a: O, b: O },
    FCmp { p: u32, w: u32, a: O, b: O },
    Alloca { size: u64, count: O },
    Load { ty: TId, p: O },
    Store { ty: TId, v: O, p: O },
    Gep { base: O, off: i64, idx: Vec<(O, u32, u64)> },
    Cast { k: Cast, from: TId, to: TId, a: O },
    Select { c: O, vec: bool, ty: TId, a: O, b: O },
    Call { callee: Callee, args: Vec<O>, ret: TId, normal: Option<u32> },
    ExtractValue { a: O, path: Vec<u32> },
    InsertValue { a: O, b: O, path: Vec<u32> },
    ExtractElement { a: O, i: O },
    InsertElement { a: O, b: O, i: O },
    Shuffle { a: O, b: O, mask: Vec<i32> },
    Copy { a: O },
    Rmw { op: u32, ty: TId, p: O, v: O },
    CmpXchg { ty: TId, p: O, c: O, n: O },
    Br(u32),
    CondBr(O, u32, u32),
    Switch { v: O, w: u32, default: u32, cases: Vec<(u128, u32)> },
    Ret(Option<O>),
    Unreachable,
    Unsupported(String),
}
#[derive(Debug)]
pub struct Inst { pub i: I, pub dst: u32, pub loc: u32 }
#[derive(Debug, Default)]
pub struct Block { pub phis: Vec<(u32, Vec<(u32, O)>)>, pub insts: Vec<Inst> }
#[derive(Debug)]
pub struct Func { pub name: String, pub nargs: u32, pub nregs: u32, pub blocks: Vec<Block>, pub decl: bool, pub intr: Intr, pub ret: TId }
#[derive(Debug)]
pub struct Global { pub name: String, pub init: Vec<u8>, pub constant: bool, pub decl: bool }

/// Functions the engine models itself.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Intr {
    None, Unknown,
    // llvm
    Nop, Zero, Ident, Memcpy, Memmove, Memset, Trap, Bswap(u32), Ctlz(u32), Cttz(u32), Ctpop(u32), BitRev(u32),
    Fshl(u32), Fshr(u32), UMax(u32), UMin(u32), SMax(u32), SMin(u32), USubSat(u32), UAddSat(u32), SSubSat(u32), SAddSat(u32), Abs(u32),
    UCmp(u32, u32), SCmp(u32, u32), UAddO(u32), USubO(u32), UMulO(u32), SAddO(u32), SSubO(u32), SMulO(u32), PtrMask, Assume,
    VReduce(VR, u32), FAbs(u32), FUn(FU, u32), FPow(u32), FToSat(bool, u32, u32),
    // libc / rust runtime
    Malloc, Calloc, Realloc, Free, PosixMemalign, AlignedAlloc, Memcmp, Bcmp, Strlen, GetRandom, ClockGettime, Write,
    RAlloc, RAllocZeroed, RRealloc, RDealloc,
    Panic(PK),
    // harness interface
    SvInt, SvBytes, SvChoice, SvParam, SvAssume, SvAssert, SvFail, SvCover, SvObserve, SvObserveBytes, SvSha, SvLive, SvMemory, SvExpectPanic, SvConc, SvEqBytes, SvIsSym,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FU { Floor, Ceil, Trunc, Round, RoundEven, Sqrt, Log2, Ln, Log10, Exp, Exp2 }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum VR { Add, And, Or, Xor, UMax, UMin }
/// Where the panic's location argument is.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum PK { Fmt, Other }

#[derive(Debug, Default)]
pub struct Module {
    pub tys: Vec<Ty>,
    pub consts: Vec<K>,
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub fn_by_name: HashMap<String, u32>,
    pub locs: Vec<(String, u32)>,
}
/// Addresses: the upper 32 bits are an object id, the lower 32 bits the offset in it.
/// Object ids are even, so that a pointer just before an object hits an id that never exists.
pub const FN_BASE: u64 = 0x4000_0000;
pub fn fn_addr(f: u32) -> u64 { (FN_BASE + 2 * f as u64) << 32 }
pub fn addr_fn(a: u64) -> Option<u32> {
    let id = a >> 32;
    if a & 0xffff_ffff != 0 || id < FN_BASE || id & 1 != 0 { return None; }
    Some(((id - FN_BASE) / 2) as u32)
}
pub fn global_addr(g: u32) -> u64 { (2 * (g as u64 + 1)) << 32 }
