//! Reads the bitcode that rustc wrote for the harness crate (with the checked library and std in it).
use crate::ffi::{self, *};
use crate::ir::{self, *};
use std::collections::HashMap;
use std::ffi::{CStr, CString};

type Ptr = ffi::P;
struct L {
    dl: Ptr,
    m: Module,
    tymap: HashMap<usize, TId>,
    gmap: HashMap<usize, u64>,
    fmap: HashMap<usize, u32>,
    locmap: HashMap<(String, u32), u32>,
    loc_filter: String,
}

fn name(v: Ptr) -> String {
    unsafe {
        let mut n = 0;
        let p = LLVMGetValueName2(v, &mut n);
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
    }
}
fn show(v: Ptr) -> String { unsafe { CStr::from_ptr(LLVMPrintValueToString(v)).to_string_lossy().into_owned() } }

impl L {
    fn ty(&mut self, t: Ptr) -> TId {
        unsafe {
            if let Some(&i) = self.tymap.get(&(t as usize)) { return i; }
            let k = match LLVMGetTypeKind(t) {
                0 => TyK::Void,
                2 => TyK::Flt(32),
                3 => TyK::Flt(64),
                8 => TyK::Int(LLVMGetIntTypeWidth(t)),
                10 => {
                    let n = LLVMCountStructElementTypes(t);
                    let mut v = vec![];
                    for i in 0..n {
                        let e = self.ty(LLVMStructGetTypeAtIndex(t, i));
                        v.push((e, LLVMOffsetOfElement(self.dl, t, i)));
                    }
                    TyK::Struct(v)
                }
                11 => { let e = self.ty(LLVMGetElementType(t)); TyK::Arr(LLVMGetArrayLength2(t), e) }
                12 => TyK::Ptr,
                13 => { let e = self.ty(LLVMGetElementType(t)); TyK::Vec(LLVMGetVectorSize(t), e) }
                _ => TyK::Other,
            };
            let (size, store) = if !matches!(k, TyK::Void | TyK::Other) && LLVMTypeIsSized(t) != 0 {
                (LLVMABISizeOfType(self.dl, t), LLVMStoreSizeOfType(self.dl, t))
            } else { (0, 0) };
            let id = self.m.tys.len() as TId;
            self.m.tys.push(Ty { k, size, store });
            self.tymap.insert(t as usize, id);
            id
        }
    }
    fn ty_of(&mut self, v: Ptr) -> TId { unsafe { self.ty(LLVMTypeOf(v)) } }
    fn width(&self, t: TId) -> u32 {
        match &self.m.tys[t as usize].k { TyK::Int(w) | TyK::Flt(w) => *w, TyK::Ptr => 64, TyK::Vec(_, e) => self.width(*e), _ => 0 }
    }
    fn lanes(&self, t: TId) -> u32 { match &self.m.tys[t as usize].k { TyK::Vec(n, _) => *n, _ => 1 } }

    fn zero(&self, t: TId) -> K {
        match &self.m.tys[t as usize].k {
            TyK::Arr(n, e) => K::A((0..*n).map(|_| self.zero(*e)).collect()),
            TyK::Vec(n, e) => K::A((0..*n).map(|_| self.zero(*e)).collect()),
            TyK::Struct(f) => K::A(f.iter().map(|(e, _)| self.zero(*e)).collect()),
            _ => K::I(0),
        }
    }
    fn konst(&mut self, v: Ptr) -> K {
        unsafe {
            let t = self.ty_of(v);
            match kind(v) {
                VK::Fn => K::I(fn_addr(*self.fmap.get(&(v as usize)).expect("fn")) as u128),
                VK::Global => K::I(*self.gmap.get(&(v as usize)).expect("global") as u128),
                VK::Zero => self.zero(t),
                VK::Int if matches!(self.m.tys[t as usize].k, TyK::Int(_)) => {
                    let w = self.width(t);
                    if w <= 64 { K::I(LLVMConstIntGetZExtValue(v) as u128) }
                    else {
                        let s = show(v);
                        let d = s.split(' ').nth(1).unwrap();
                        let n: i128 = d.parse().unwrap_or_else(|_| d.parse::<u128>().expect("wide int") as i128);
                        K::I(if w >= 128 { n as u128 } else { n as u128 & ((1 << w) - 1) })
                    }
                }
                VK::Fp if matches!(self.m.tys[t as usize].k, TyK::Flt(_)) => {
                    let mut l = 0;
                    let d = LLVMConstRealGetDouble(v, &mut l);
                    K::I(if self.width(t) == 32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 })
                }
                VK::Agg | VK::Int | VK::Fp => {
                    let n = match &self.m.tys[t as usize].k { TyK::Arr(n, _) => *n, TyK::Vec(n, _) => *n as u64, TyK::Struct(f) => f.len() as u64, x => panic!("aggregate {:?}", x) };
                    K::A((0..n).map(|i| { let e = LLVMGetAggregateElement(v, i as u32); self.konst(e) }).collect())
                }
                VK::Expr => self.kexpr(v, t),
                k => panic!("constant kind {:?} {}", k, show(v)),
            }
        }
    }
    fn kint(&mut self, v: Ptr) -> u128 { match self.konst(v) { K::I(x) => x, K::A(_) => panic!("scalar constant expected") } }
    fn kexpr(&mut self, v: Ptr, t: TId) -> K {
        unsafe {
            let w = self.width(t);
            let mask = if w >= 128 || w == 0 { u128::MAX } else { (1u128 << w) - 1 };
            let op = LLVMGetConstOpcode(v);
            let a = |s: &mut Self, i: u32| s.kint(LLVMGetOperand(v, i));
            let r = match op {
                29 => {
                    let (base, off, idx) = self.gep(v);
                    let b = match base { O::C(c) => c, O::K(k) => match self.m.consts[k as usize] { K::I(x) => x as u64, _ => panic!() }, _ => panic!() };
                    assert!(idx.is_empty());
                    b.wrapping_add(off as u64) as u128
                }
                30 | 31 | 39 | 40 | 41 | 60 | 69 => a(self, 0),
                8 => a(self, 0).wrapping_add(a(self, 1)),
                10 => a(self, 0).wrapping_sub(a(self, 1)),
                25 => a(self, 0) ^ a(self, 1),
                _ => panic!("constant expression {} {}", op, show(v)),
            };
            K::I(r & mask)
        }
    }
    fn pool(&mut self, k: K) -> O {
        match k {
            K::I(x) if x <= u64::MAX as u128 => O::C(x as u64),
            k => { self.m.consts.push(k); O::K(self.m.consts.len() as u32 - 1) }
        }
    }
    fn gep(&mut self, v: Ptr) -> (O, i64, Vec<(O, u32, u64)>) { self.gep_in(v, &HashMap::new()) }
    fn gep_in(&mut self, v: Ptr, regs: &HashMap<usize, u32>) -> (O, i64, Vec<(O, u32, u64)>) {
        unsafe {
            let base = self.opd(LLVMGetOperand(v, 0), regs);
            let mut t = self.ty(LLVMGetGEPSourceElementType(v));
            let n = LLVMGetNumOperands(v) as u32;
            let mut off = 0i64;
            let mut idx = vec![];
            for i in 1..n {
                let o = LLVMGetOperand(v, i);
                let ot = self.ty_of(o);
                let ow = self.width(ot);
                let scale;
                if i == 1 { scale = self.m.tys[t as usize].size; }
                else {
                    match self.m.tys[t as usize].k.clone() {
                        TyK::Struct(f) => {
                            let k = LLVMConstIntGetZExtValue(o) as usize;
                            off += f[k].1 as i64;
                            t = f[k].0;
                            continue;
                        }
                        TyK::Arr(_, e) | TyK::Vec(_, e) => { t = e; scale = self.m.tys[e as usize].size; }
                        x => panic!("gep into {:?}", x),
                    }
                }
                match self.opd(o, regs) {
                    O::C(c) => { let s = if ow >= 64 { c as i64 } else { ((c << (64 - ow)) as i64) >> (64 - ow) }; off = off.wrapping_add(s.wrapping_mul(scale as i64)); }
                    o => idx.push((o, ow, scale)),
                }
            }
            (base, off, idx)
        }
    }
    fn opd(&mut self, v: Ptr, regs: &HashMap<usize, u32>) -> O {
        if let Some(&r) = regs.get(&(v as usize)) { return O::R(r); }
        if matches!(unsafe { kind(v) }, VK::Asm | VK::Other) { return O::C(0); }
        let k = self.konst(v);
        self.pool(k)
    }
    fn store_const(&self, k: &K, t: TId, out: &mut [u8]) {
        let ty = &self.m.tys[t as usize];
        match (&ty.k, k) {
            (TyK::Arr(_, e), K::A(v)) => { let s = self.m.tys[*e as usize].size as usize; for (i, x) in v.iter().enumerate() { self.store_const(x, *e, &mut out[i * s..(i + 1) * s]); } }
            (TyK::Vec(_, e), K::A(v)) => { let s = self.m.tys[*e as usize].size as usize; for (i, x) in v.iter().enumerate() { self.store_const(x, *e, &mut out[i * s..(i + 1) * s]); } }
            (TyK::Struct(f), K::A(v)) => for (x, (e, o)) in v.iter().zip(f) { let s = self.m.tys[*e as usize].size as usize; self.store_const(x, *e, &mut out[*o as usize..*o as usize + s]); },
            (_, K::I(x)) => { let b = x.to_le_bytes(); let n = (ty.store as usize).min(16); out[..n].copy_from_slice(&b[..n]); }
            _ => panic!("initializer shape"),
        }
    }
    fn loc(&mut self, i: Ptr) -> u32 {
        unsafe {
            let line = LLVMGetDebugLocLine(i);
            if line == 0 { return 0; }
            let mut n = 0u32;
            let p = LLVMGetDebugLocFilename(i, &mut n);
            if p.is_null() { return 0; }
            let f = String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n as usize)).into_owned();
            let mut dn = 0u32;
            let dp = LLVMGetDebugLocDirectory(i, &mut dn);
            let full = if f.starts_with('/') || dp.is_null() { f } else {
                format!("{}/{}", String::from_utf8_lossy(std::slice::from_raw_parts(dp as *const u8, dn as usize)), f)
            };
            let Some(pos) = full.find(&self.loc_filter) else { return 0 };
            let rel = full[pos + self.loc_filter.len()..].to_string();
            let n = self.m.locs.len() as u32;
            let locs = &mut self.m.locs;
            *self.locmap.entry((rel.clone(), line)).or_insert_with(|| { locs.push((rel, line)); n })
        }
    }

    fn func(&mut self, f: Ptr, fi: u32) {
        unsafe {
            let mut regs: HashMap<usize, u32> = HashMap::new();
            let na = LLVMCountParams(f);
            for i in 0..na { regs.insert(LLVMGetParam(f, i) as usize, i); }
            let mut nregs = na;
            let mut bbs: HashMap<usize, u32> = HashMap::new();
            let mut bb = LLVMGetFirstBasicBlock(f);
            let mut order = vec![];
            while !bb.is_null() {
                bbs.insert(bb as usize, order.len() as u32);
                order.push(bb);
                let mut i = LLVMGetFirstInstruction(bb);
                while !i.is_null() {
                    let t = self.ty_of(i);
                    if !matches!(self.m.tys[t as usize].k, TyK::Void) { regs.insert(i as usize, nregs); nregs += 1; }
                    i = LLVMGetNextInstruction(i);
                }
                bb = LLVMGetNextBasicBlock(bb);
            }
            let mut blocks = vec![];
            for bb in order {
                let mut b = Block::default();
                let mut i = LLVMGetFirstInstruction(bb);
                while !i.is_null() {
                    let op = LLVMGetInstructionOpcode(i);
                    let dst = regs.get(&(i as usize)).copied().unwrap_or(u32::MAX);
                    if op == 44 {
                        let n = LLVMCountIncoming(i);
                        let mut v = vec![];
                        for k in 0..n { v.push((bbs[&(LLVMGetIncomingBlock(i, k) as usize)], self.opd(LLVMGetIncomingValue(i, k), &regs))); }
                        b.phis.push((dst, v));
                    } else {
                        let inst = self.inst(i, op, &regs, &bbs);
                        if !matches!(inst, I::Nop) { let loc = self.loc(i); b.insts.push(Inst { i: inst, dst, loc }); }
                    }
                    i = LLVMGetNextInstruction(i);
                }
                blocks.push(b);
            }
            let fu = &mut self.m.funcs[fi as usize];
            fu.nregs = nregs;
            fu.blocks = blocks;
        }
    }

    fn inst(&mut self, i: Ptr, op: u32, regs: &HashMap<usize, u32>, bbs: &HashMap<usize, u32>) -> I {
        unsafe {
            let opn = |s: &mut Self, k: u32| s.opd(LLVMGetOperand(i, k), regs);
            let t = self.ty_of(i);
            let bbi = |b: Ptr| bbs[&(b as usize)];
            if !LLVMIsACondBrInst(i).is_null() {
                let c = self.opd(LLVMGetCondition(i), regs);
                return I::CondBr(c, bbi(LLVMGetSuccessor(i, 0)), bbi(LLVMGetSuccessor(i, 1)));
            }
            if !LLVMIsAUncondBrInst(i).is_null() { return I::Br(bbi(LLVMGetSuccessor(i, 0))); }
            let bin = |b: B, s: &mut Self| { let (x, y) = (opn(s, 0), opn(s, 1)); I::Bin { op: b, w: s.width(t), n: if matches!(s.m.tys[t as usize].k, TyK::Vec(..)) { s.lanes(t) } else { 0 }, a: x, b: y } };
            let fbin = |b: FB, s: &mut Self| {
                if matches!(s.m.tys[t as usize].k, TyK::Vec(..)) { return I::Unsupported(show(i)); }
                let (x, y) = (opn(s, 0), opn(s, 1)); I::FBin { op: b, w: s.width(t), a: x, b: y } };
            let cast = |k: ir::Cast, s: &mut Self| { let o = LLVMGetOperand(i, 0); let from = s.ty_of(o); let a = s.opd(o, regs); I::Cast { k, from, to: t, a } };
            match op {
                1 => if LLVMGetNumOperands(i) == 0 { I::Ret(None) } else { I::Ret(Some(opn(self, 0))) },
                3 => {
                    let c = LLVMGetOperand(i, 0);
                    let ct = self.ty_of(c);
                    let v = self.opd(c, regs);
                    let default = bbi(LLVMGetSwitchDefaultDest(i));
                    let n = LLVMGetNumSuccessors(i);
                    let mut cases = vec![];
                    for k in 1..n { cases.push((self.kint(LLVMGetSwitchCaseValue(i, k)), bbi(LLVMGetSuccessor(i, k)))); }
                    I::Switch { v, w: self.width(ct), default, cases }
                }
                5 | 45 => {
                    let cv = LLVMGetCalledValue(i);
                    let n = LLVMGetNumArgOperands(i);
                    let mut args = vec![];
                    let callee = if kind(cv) == VK::Fn {
                        let nm = name(cv);
                        if nm.starts_with("llvm.dbg.") || nm.starts_with("llvm.lifetime.") || nm.starts_with("llvm.experimental.noalias") { return I::Nop; }
                        Callee::Fn(self.fmap[&(cv as usize)])
                    } else if kind(cv) == VK::Asm {
                        let mut n = 0;
                        let p = LLVMGetInlineAsmAsmString(cv, &mut n);
                        Callee::Asm(String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned())
                    } else { Callee::Ptr(self.opd(cv, regs)) };
                    for k in 0..n { args.push(self.opd(LLVMGetArgOperand(i, k), regs)); }
                    let normal = if op == 5 { Some(bbi(LLVMGetNormalDest(i))) } else { None };
                    I::Call { callee, args, ret: t, normal }
                }
                7 => I::Unreachable,
                8 => bin(B::Add, self), 10 => bin(B::Sub, self), 12 => bin(B::Mul, self),
                14 => bin(B::UDiv, self), 15 => bin(B::SDiv, self), 17 => bin(B::URem, self), 18 => bin(B::SRem, self),
                20 => bin(B::Shl, self), 21 => bin(B::LShr, self), 22 => bin(B::AShr, self),
                23 => bin(B::And, self), 24 => bin(B::Or, self), 25 => bin(B::Xor, self),
                9 => fbin(FB::Add, self), 11 => fbin(FB::Sub, self), 13 => fbin(FB::Mul, self), 16 => fbin(FB::Div, self), 19 => fbin(FB::Rem, self),
                66 => I::FNeg { w: self.width(t), a: opn(self, 0) },
                26 => { let at = self.ty(LLVMGetAllocatedType(i)); I::Alloca { size: self.m.tys[at as usize].size, count: opn(self, 0) } }
                27 => I::Load { ty: t, p: opn(self, 0) },
                28 => { let o = LLVMGetOperand(i, 0); let ty = self.ty_of(o); I::Store { ty, v: self.opd(o, regs), p: opn(self, 1) } }
                29 => {
                    if !matches!(self.m.tys[t as usize].k, TyK::Ptr) { return I::Unsupported(show(i)); }
                    let (base, off, idx) = self.gep_in(i, regs); I::Gep { base, off, idx }
                }
                30 => cast(ir::Cast::Trunc, self), 31 => cast(ir::Cast::ZExt, self), 32 => cast(ir::Cast::SExt, self),
                33 => cast(ir::Cast::FpToUi, self), 34 => cast(ir::Cast::FpToSi, self), 35 => cast(ir::Cast::UiToFp, self), 36 => cast(ir::Cast::SiToFp, self),
                37 => cast(ir::Cast::FpTrunc, self), 38 => cast(ir::Cast::FpExt, self),
                39 | 40 | 41 | 60 | 69 => cast(ir::Cast::Bit, self),
                42 => {
                    let o = LLVMGetOperand(i, 0);
                    let ot = self.ty_of(o);
                    let p = match LLVMGetICmpPredicate(i) { 32 => ir::P::Eq, 33 => ir::P::Ne, 34 => ir::P::Ugt, 35 => ir::P::Uge, 36 => ir::P::Ult, 37 => ir::P::Ule, 38 => ir::P::Sgt, 39 => ir::P::Sge, 40 => ir::P::Slt, 41 => ir::P::Sle, x => panic!("icmp {}", x) };
                    I::Cmp { p, w: self.width(ot), n: if matches!(self.m.tys[ot as usize].k, TyK::Vec(..)) { self.lanes(ot) } else { 0 }, a: self.opd(o, regs), b: opn(self, 1) }
                }
                43 => { let o = LLVMGetOperand(i, 0); let ot = self.ty_of(o); I::FCmp { p: LLVMGetFCmpPredicate(i), w: self.width(ot), a: self.opd(o, regs), b: opn(self, 1) } }
                46 => { let c = LLVMGetOperand(i, 0); let ct = self.ty_of(c); I::Select { c: self.opd(c, regs), vec: matches!(self.m.tys[ct as usize].k, TyK::Vec(..)), ty: t, a: opn(self, 1), b: opn(self, 2) } }
                50 => I::ExtractElement { a: opn(self, 0), i: opn(self, 1) },
                51 => I::InsertElement { a: opn(self, 0), b: opn(self, 1), i: opn(self, 2) },
                52 => { let n = LLVMGetNumMaskElements(i); let mask = (0..n).map(|k| LLVMGetMaskValue(i, k)).collect(); I::Shuffle { a: opn(self, 0), b: opn(self, 1), mask } }
                53 | 54 => {
                    let n = LLVMGetNumIndices(i) as usize;
                    let path = std::slice::from_raw_parts(LLVMGetIndices(i), n).to_vec();
                    if op == 53 { I::ExtractValue { a: opn(self, 0), path } } else { I::InsertValue { a: opn(self, 0), b: opn(self, 1), path } }
                }
                68 => I::Copy { a: opn(self, 0) },
                55 => I::Nop,
                56 => { let o = LLVMGetOperand(i, 1); let ty = self.ty_of(o); I::CmpXchg { ty, p: opn(self, 0), c: self.opd(o, regs), n: opn(self, 2) } }
                57 => I::Rmw { op: LLVMGetAtomicRMWBinOp(i), ty: t, p: opn(self, 0), v: opn(self, 1) },
                _ => I::Unsupported(show(i)),
            }
        }
    }
}

fn ints(n: &str) -> Vec<u32> { n.split('.').filter_map(|p| p.strip_prefix('i').and_then(|x| x.parse().ok())).collect() }

fn intr(n: &str, decl: bool) -> Intr {
    use Intr::*;
    if let Some(s) = n.strip_prefix("llvm.") {
        let w = ints(n);
        let w0 = w.first().copied().unwrap_or(0);
        // vector versions have a ".vN" component
        let vector = n.split('.').any(|p| p.len() > 2 && p.starts_with('v') && p[1..].chars().next().unwrap().is_ascii_digit());
        if vector && !s.starts_with("vector.reduce") { return Unknown; }
        let pre = |p: &str| s.starts_with(p);
        let fw = match n.rsplit('.').next() { Some("f32") => 32, Some("f64") => 64, _ => 0 };
        if fw > 0 {
            use crate::ir::FU;
            match s.split('.').next().unwrap_or("") {
                "fabs" => return FAbs(fw), "pow" => return FPow(fw),
                "fptosi" if w0 > 0 => return FToSat(true, w0, fw), "fptoui" if w0 > 0 => return FToSat(false, w0, fw),
                x => { if let Some(k) = [("floor", FU::Floor), ("ceil", FU::Ceil), ("trunc", FU::Trunc), ("round", FU::Round), ("roundeven", FU::RoundEven), ("rint", FU::RoundEven), ("nearbyint", FU::RoundEven), ("sqrt", FU::Sqrt), ("log2", FU::Log2), ("log", FU::Ln), ("log10", FU::Log10), ("exp", FU::Exp), ("exp2", FU::Exp2)].iter().find(|e| e.0 == x) { return FUn(k.1, fw) } }
            }
        }
        return if pre("lifetime") || pre("dbg") || pre("experimental.noalias") || pre("x86.sse2.pause") || pre("donothing") || pre("prefetch") || pre("invariant.") || pre("sideeffect") { Nop }
        else if pre("assume") { Assume }
        else if pre("is.constant") { Zero }
        else if pre("threadlocal.address") || pre("expect") || pre("launder") || pre("strip.invariant") || pre("ssa.copy") { Ident }
        else if pre("memcpy") { Memcpy } else if pre("memmove") { Memmove } else if pre("memset") { Memset }
        else if pre("trap") || pre("ubsantrap") || pre("debugtrap") { Trap }
        else if pre("bswap") { Bswap(w0) } else if pre("ctlz") { Ctlz(w0) } else if pre("cttz") { Cttz(w0) } else if pre("ctpop") { Ctpop(w0) } else if pre("bitreverse") { BitRev(w0) }
        else if pre("fshl") { Fshl(w0) } else if pre("fshr") { Fshr(w0) }
        else if pre("umax") { UMax(w0) } else if pre("umin") { UMin(w0) } else if pre("smax") { SMax(w0) } else if pre("smin") { SMin(w0) }
        else if pre("usub.sat") { USubSat(w0) } else if pre("uadd.sat") { UAddSat(w0) } else if pre("ssub.sat") { SSubSat(w0) } else if pre("sadd.sat") { SAddSat(w0) } else if pre("abs") { Abs(w0) }
        else if pre("ucmp") { UCmp(w[0], *w.get(1).unwrap_or(&64)) } else if pre("scmp") { SCmp(w[0], *w.get(1).unwrap_or(&64)) }
        else if pre("uadd.with") { UAddO(w0) } else if pre("usub.with") { USubO(w0) } else if pre("umul.with") { UMulO(w0) }
        else if pre("sadd.with") { SAddO(w0) } else if pre("ssub.with") { SSubO(w0) } else if pre("smul.with") { SMulO(w0) }
        else if pre("ptrmask") { PtrMask }
        else if pre("vector.reduce.") {
            let ew = n.rsplit('.').next().and_then(|p| p.split('i').nth(1)).and_then(|x| x.parse().ok()).unwrap_or(0);
            let s = &s["vector.reduce.".len()..];
            if s.starts_with("add") { VReduce(VR::Add, ew) } else if s.starts_with("and") { VReduce(VR::And, ew) } else if s.starts_with("or") { VReduce(VR::Or, ew) }
            else if s.starts_with("xor") { VReduce(VR::Xor, ew) } else if s.starts_with("umax") { VReduce(VR::UMax, ew) } else if s.starts_with("umin") { VReduce(VR::UMin, ew) } else { Unknown }
        }
        else { Unknown };
    }
    match n {
        "malloc" => return Malloc, "calloc" => return Calloc, "realloc" => return Realloc, "free" => return Free,
        "posix_memalign" => return PosixMemalign, "aligned_alloc" => return AlignedAlloc,
        "memcpy" => return Memcpy, "memmove" => return Memmove, "memset" => return Memset, "memcmp" => return Memcmp, "bcmp" => return Bcmp, "strlen" => return Strlen,
        "getrandom" => return GetRandom, "clock_gettime" => return ClockGettime, "write" => return Write, "__cxa_thread_atexit_impl" | "getenv" => return Zero, "abort" => return Trap,
        "sv_int" => return SvInt, "sv_bytes" => return SvBytes, "sv_choice" => return SvChoice, "sv_param" => return SvParam, "sv_assume" => return SvAssume,
        "sv_assert" => return SvAssert, "sv_fail" => return SvFail, "sv_cover" => return SvCover, "sv_observe" => return SvObserve, "sv_observe_bytes" => return SvObserveBytes,
        "sv_sha256" => return SvSha, "sv_live_allocs" => return SvLive, "sv_memory" => return SvMemory, "sv_expect_panic" => return SvExpectPanic, "sv_concretize" => return SvConc, "sv_eq_bytes" => return SvEqBytes,
        "sv_is_symbolic" => return SvIsSym,
        _ => {}
    }
    if n.starts_with("_R") {
        // entry points of the panic machinery: the arguments are not formatted
        if n.contains("4core9panicking9panic_fmt") { return Panic(PK::Fmt); }
        if n.contains("9panicking18panic_nounwind_fmt") || n.contains("9panicking14panic_nounwind") || n.contains("9panicking19panic_cannot_unwind") || n.contains("9panicking16panic_in_cleanup") || n.contains("9panicking26panic_nounwind_nobacktrace") { return Panic(PK::Other); }
        if n.contains("3std9panicking11begin_panic") && !n.contains("7Payload") { return Panic(PK::Other); }
        if n.contains("5alloc5alloc18handle_alloc_error") { return Panic(PK::Other); }
        if n.ends_with("___rust_alloc") || n.contains("12___rust_alloc") && !n.contains("zeroed") { return RAlloc; }
        if n.contains("19___rust_alloc_zeroed") { return RAllocZeroed; }
        if n.contains("14___rust_realloc") { return RRealloc; }
        if n.contains("14___rust_dealloc") { return RDealloc; }
    }
    if decl { Unknown } else { None }
}

pub fn load(path: &str, loc_filter: &str) -> Module {
    unsafe {
        let ctx = LLVMContextCreate();
        let mut buf = std::ptr::null_mut();
        let mut msg = std::ptr::null_mut();
        let cp = CString::new(path).unwrap();
        if LLVMCreateMemoryBufferWithContentsOfFile(cp.as_ptr(), &mut buf, &mut msg) != 0 { panic!("cannot read {}", path); }
        let mut md = std::ptr::null_mut();
        if LLVMParseBitcodeInContext2(ctx, buf, &mut md) != 0 { panic!("cannot parse {}", path); }
        let mut l = L { dl: LLVMGetModuleDataLayout(md), m: Module::default(), tymap: HashMap::new(), gmap: HashMap::new(), fmap: HashMap::new(), locmap: HashMap::new(), loc_filter: loc_filter.into() };
        l.m.locs.push((String::new(), 0));
        let mut f = LLVMGetFirstFunction(md);
        let mut fs = vec![];
        while !f.is_null() {
            let n = name(f);
            let decl = LLVMIsDeclaration(f) != 0;
            let id = l.m.funcs.len() as u32;
            l.fmap.insert(f as usize, id);
            l.m.fn_by_name.insert(n.clone(), id);
            l.m.funcs.push(Func { intr: intr(&n, decl), name: n, nargs: LLVMCountParams(f), nregs: 0, blocks: vec![], decl, ret: 0 });
            fs.push(f);
            f = LLVMGetNextFunction(f);
        }
        let mut gs = vec![];
        let mut g = LLVMGetFirstGlobal(md);
        while !g.is_null() { l.gmap.insert(g as usize, global_addr(gs.len() as u32)); gs.push(g); g = LLVMGetNextGlobal(g); }
        let mut a = LLVMGetFirstGlobalAlias(md);
        while !a.is_null() {
            let t = LLVMAliasGetAliasee(a);
            let addr = if let Some(x) = l.gmap.get(&(t as usize)) { *x } else if let Some(x) = l.fmap.get(&(t as usize)) { fn_addr(*x) } else { panic!("alias") };
            l.gmap.insert(a as usize, addr);
            a = LLVMGetNextGlobalAlias(a);
        }
        for &g in &gs {
            let t = l.ty(LLVMGlobalGetValueType(g));
            let size = l.m.tys[t as usize].size as usize;
            let init = LLVMGetInitializer(g);
            let mut bytes = vec![0u8; size];
            if !init.is_null() {
                let nm = name(g);
                if !nm.starts_with("llvm.") { let k = l.konst(init); l.store_const(&k, t, &mut bytes); }
            }
            l.m.globals.push(Global { name: name(g), init: bytes, constant: LLVMIsGlobalConstant(g) != 0, decl: init.is_null() });
        }
        for (i, &f) in fs.iter().enumerate() {
            if !l.m.funcs[i].decl && l.m.funcs[i].intr == Intr::None { l.func(f, i as u32); }
        }
        l.m
    }
}
