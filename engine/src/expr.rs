//! Hash-consed bit-vector terms, with simplification. One arena per worker thread.
use crate::ir::B;
use std::collections::HashMap;

pub type E = u32;
/// One byte of memory: a constant (`e == 0`) or byte `i` (little-endian) of term `e`.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct By { pub e: E, pub i: u32 }
impl By { pub fn c(b: u8) -> By { By { e: 0, i: b as u32 } } pub fn konst(&self) -> Option<u8> { if self.e == 0 { Some(self.i as u8) } else { None } } }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Bin(B, E, E),
    Eq(E, E),
    Ult(E, E),
    Slt(E, E),
    Ite(E, E, E),
    Extract(E, u32), // low bit; width is that of the node
    Concat(Box<[E]>), // most significant first
    ZExt(E),
    SExt(E),
    Sha(Box<[By]>),
}
pub struct Arena {
    pub n: Vec<(N, u32)>,
    /// Structural hashes: operands are ordered by them, so that every worker builds the same terms.
    hs: Vec<u64>,
    map: HashMap<(N, u32), E, BuildFx>,
    pub t: E,
    pub f: E,
    pub sha_solver_uses: u64,
    /// The digests of constant inputs met so far.
    digests: HashMap<[u8; 32], E, BuildFx>,
}
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
#[derive(Default, Clone, Copy)]
pub struct BuildFx;
impl std::hash::BuildHasher for BuildFx { type Hasher = Fx; fn build_hasher(&self) -> Fx { Fx(0) } }
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 32) }
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); self.write_u64(u64::from_le_bytes(x)); } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95); }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
}

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }
pub fn fold(op: B, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    (match op {
        B::Add => a.wrapping_add(b), B::Sub => a.wrapping_sub(b), B::Mul => a.wrapping_mul(b),
        B::UDiv => if b == 0 { m } else { a / b }, B::URem => if b == 0 { a } else { a % b },
        B::SDiv => if b == 0 { if sx(a, w) < 0 { 1 } else { m } } else { sx(a, w).wrapping_div(sx(b, w)) as u128 },
        B::SRem => if b == 0 { a } else { sx(a, w).wrapping_rem(sx(b, w)) as u128 },
        B::Shl => if b >= w as u128 { 0 } else { a << b }, B::LShr => if b >= w as u128 { 0 } else { a >> b },
        B::AShr => (sx(a, w) >> b.min(w as u128 - 1).min(127)) as u128,
        B::And => a & b, B::Or => a | b, B::Xor => a ^ b,
    }) & m
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { n: vec![(N::Const(0), 0)], hs: vec![0], map: Default::default(), t: 0, f: 0, sha_solver_uses: 0, digests: Default::default() };
        a.f = a.k(0, 1);
        a.t = a.k(1, 1);
        a
    }
    fn mk(&mut self, n: N, w: u32) -> E {
        let key = (n, w);
        if let Some(&e) = self.map.get(&key) { return e; }
        let e = self.n.len() as E;
        let h = self.structural(&key.0, w);
        self.hs.push(h);
        self.n.push(key.clone());
        self.map.insert(key, e);
        e
    }
    fn structural(&self, n: &N, w: u32) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut f = Fx(0x9e3779b97f4a7c15);
        std::mem::discriminant(n).hash(&mut f);
        f.write_u32(w);
        let c = |f: &mut Fx, e: &E| f.write_u64(self.hs[*e as usize]);
        match n {
            N::Const(v) => f.write_u128(*v),
            N::Var(i) => f.write_u32(*i),
            N::Bin(o, a, b) => { o.hash(&mut f); c(&mut f, a); c(&mut f, b) }
            N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) => { c(&mut f, a); c(&mut f, b) }
            N::Ite(a, b, d) => { c(&mut f, a); c(&mut f, b); c(&mut f, d) }
            N::Extract(a, i) => { c(&mut f, a); f.write_u32(*i) }
            N::Concat(v) => for a in v.iter() { c(&mut f, a) },
            N::ZExt(a) | N::SExt(a) => c(&mut f, a),
            N::Sha(v) => for b in v.iter() { c(&mut f, &b.e); f.write_u32(b.i) },
        }
        f.finish()
    }
    fn before(&self, a: E, b: E) -> bool { (self.hs[a as usize], a) < (self.hs[b as usize], b) }
    pub fn w(&self, e: E) -> u32 { self.n[e as usize].1 }
    pub fn k(&mut self, v: u128, w: u32) -> E { debug_assert!(w <= 128); self.mk(N::Const(v & mask(w)), w) }
    pub fn b(&self, v: bool) -> E { if v { self.t } else { self.f } }
    pub fn var(&mut self, id: u32, w: u32) -> E { self.mk(N::Var(id), w) }
    pub fn is_k(&self, e: E) -> Option<u128> { if let N::Const(v) = self.n[e as usize].0 { Some(v) } else { None } }

    /// An if-then-else tree whose leaves are all constants (small ones only).
    fn ite_consts(&self, e: E, depth: u32) -> bool {
        match self.n[e as usize].0 {
            N::Const(_) => true,
            N::Ite(_, a, b) => depth > 0 && self.ite_consts(a, depth - 1) && self.ite_consts(b, depth - 1),
            _ => false,
        }
    }
    fn is_ite_tree(&self, e: E) -> bool { matches!(self.n[e as usize].0, N::Ite(..)) && self.ite_consts(e, 6) }
    fn map_leaves(&mut self, e: E, f: &mut dyn FnMut(&mut Arena, E) -> E) -> E {
        if let N::Ite(c, a, b) = self.n[e as usize].0 { let x = self.map_leaves(a, f); let y = self.map_leaves(b, f); return self.ite(c, x, y); }
        f(self, e)
    }

    pub fn not(&mut self, a: E) -> E { let o = self.k(mask(self.w(a)), self.w(a)); self.bin(B::Xor, a, o) }
    pub fn and(&mut self, a: E, b: E) -> E { self.bin(B::And, a, b) }
    pub fn or(&mut self, a: E, b: E) -> E { self.bin(B::Or, a, b) }

    pub fn bin(&mut self, op: B, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let m = mask(w);
        if let (Some(x), Some(y)) = (self.is_k(a), self.is_k(b)) { return self.k(fold(op, x, y, w), w); }
        if matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor) && (self.is_k(a).is_some() || (self.is_k(b).is_none() && self.before(b, a))) { std::mem::swap(&mut a, &mut b); }
        let kb = self.is_k(b);
        if let Some(y) = kb {
            match op {
                B::Add | B::Sub | B::Or | B::Xor | B::Shl | B::LShr | B::AShr if y == 0 => return a,
                B::And | B::Mul if y == 0 => return b,
                B::Mul | B::UDiv if y == 1 => return a,
                B::And if y == m => return a,
                B::Or if y == m => return b,
                B::Shl | B::LShr if y >= w as u128 => return self.k(0, w),
                _ => {}
            }
            if op == B::Xor && y == m {
                // double negation
                if let N::Bin(B::Xor, x, z) = self.n[a as usize].0 { if self.is_k(z) == Some(m) { return x; } }
            }
            if self.is_ite_tree(a) { return self.map_leaves(a, &mut |s, l| s.bin(op, l, b)); }
            match op {
                B::LShr => { let k = y as u32; let hi = self.extract(a, k, w - k); return self.zext(hi, w); }
                B::Shl => { let k = y as u32; let lo = self.extract(a, 0, w - k); let z = self.kz(k); return self.concat(&[lo, z]); }
                B::And if w <= 128 => {
                    // contiguous low mask, or a byte-aligned field: becomes extract and concat
                    let tz = y.trailing_zeros();
                    let run = y >> tz;
                    if run & (run + 1) == 0 && w > 1 {
                        let len = 128 - run.leading_zeros();
                        let mid = self.extract(a, tz, len);
                        let mut parts = vec![];
                        if tz + len < w { parts.push(self.kz(w - tz - len)); }
                        parts.push(mid);
                        if tz > 0 { parts.push(self.kz(tz)); }
                        return self.concat(&parts);
                    }
                }
                B::Add | B::Sub => {
                    let c = if op == B::Sub { (!y).wrapping_add(1) & m } else { y };
                    if let N::Bin(B::Add, x, z) = self.n[a as usize].0 { if let Some(q) = self.is_k(z) { let s = self.k(q.wrapping_add(c), w); return self.bin(B::Add, x, s); } }
                    if op == B::Sub { let kc = self.k(c, w); return self.bin(B::Add, a, kc); }
                }
                B::UDiv if y.is_power_of_two() => { let s = self.k(y.trailing_zeros() as u128, w); return self.bin(B::LShr, a, s); }
                B::URem if y.is_power_of_two() => { let s = self.k(y - 1, w); return self.bin(B::And, a, s); }
                B::Mul if y.is_power_of_two() => { let s = self.k(y.trailing_zeros() as u128, w); return self.bin(B::Shl, a, s); }
                _ => {}
            }
        } else if self.is_k(a).is_some() && self.is_ite_tree(b) { return self.map_leaves(b, &mut |s, l| s.bin(op, a, l)); }
        if a == b {
            match op { B::And | B::Or => return a, B::Xor | B::Sub => return self.k(0, w), _ => {} }
        }
        if op == B::And && w == 1 { let na = self.not(a); if na == b { return self.f; } }
        if op == B::Or {
            if w == 1 { let na = self.not(a); if na == b { return self.t; } }
            // disjoint fields: (hi . 0) | (0 . lo)
            if let Some(r) = self.or_fields(a, b) { return r; }
        }
        if (op == B::Add || op == B::Xor) && w > 1 { if let Some(r) = self.or_fields(a, b) { return r; } }
        self.mk(N::Bin(op, a, b), w)
    }
    fn kz(&mut self, w: u32) -> E { self.k(0, w) }
    /// The fields of a concatenation (or zero extension), most significant first.
    fn fields(&mut self, e: E) -> Option<Vec<E>> {
        let w = self.w(e);
        match self.n[e as usize].0.clone() {
            N::Concat(v) => Some(v.to_vec()),
            N::ZExt(x) => { let z = self.kz(w - self.w(x)); Some(vec![z, x]) }
            _ => None,
        }
    }
    fn or_fields(&mut self, a: E, b: E) -> Option<E> {
        if self.w(a) > 128 { return None; }
        let fa = self.fields(a)?;
        let fb = self.fields(b)?;
        // split at the union of the boundaries; each piece must be zero on one side
        let mut cuts = std::collections::BTreeSet::new();
        for f in [&fa, &fb] { let mut p = 0; for &x in f.iter().rev() { p += self.w(x); cuts.insert(p); } }
        let mut lo = 0;
        let mut out = vec![];
        for c in cuts {
            let x = self.extract(a, lo, c - lo);
            let y = self.extract(b, lo, c - lo);
            if self.is_k(x) == Some(0) { out.push(y); } else if self.is_k(y) == Some(0) { out.push(x); } else { return None; }
            lo = c;
        }
        out.reverse();
        Some(self.concat(&out))
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        let (a, b) = if self.before(a, b) { (a, b) } else { (b, a) };
        if a == b { return self.t; }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ka, kb) = (self.is_k(a), self.is_k(b));
        if let (Some(x), Some(y)) = (ka, kb) { return self.b(x == y); }
        let (a, b, kb) = if ka.is_some() { (b, a, ka) } else { (a, b, kb) };
        if w == 1 {
            if let Some(y) = kb { return if y == 1 { a } else { self.not(a) }; }
        }
        if let Some(y) = kb {
            if self.is_ite_tree(a) { return self.map_leaves(a, &mut |s, l| s.eq(l, b)); }
            match self.n[a as usize].0.clone() {
                N::ZExt(x) => { let wx = self.w(x); if y > mask(wx) { return self.f; } let k = self.k(y, wx); return self.eq(x, k); }
                N::SExt(x) => { let wx = self.w(x); let k = self.k(y, wx); if sx(y & mask(wx), wx) as u128 & mask(w) != y { return self.f; } return self.eq(x, k); }
                N::Concat(v) => {
                    let mut lo = 0;
                    let mut r = self.t;
                    for &p in v.iter().rev() { let wp = self.w(p); let k = self.k(y >> lo, wp); let q = self.eq(p, k); r = self.and(r, q); lo += wp; if r == self.f { break; } }
                    return r;
                }
                N::Bin(B::Add, x, z) => if let Some(q) = self.is_k(z) { let k = self.k(y.wrapping_sub(q), w); return self.eq(x, k); },
                N::Bin(B::Xor, x, z) => if let Some(q) = self.is_k(z) { let k = self.k(y ^ q, w); return self.eq(x, k); },
                N::Bin(B::Xor, x, z) if y == 0 => return self.eq(x, z),
                N::Bin(B::Sub, x, z) if y == 0 => return self.eq(x, z),
                N::Bin(B::Or, x, z) if y == 0 => { let p = self.eq(x, b); let q = self.eq(z, b); return self.and(p, q); }
                _ => {}
            }
        } else {
            match (self.n[a as usize].0.clone(), self.n[b as usize].0.clone()) {
                (N::ZExt(x), N::ZExt(y)) | (N::SExt(x), N::SExt(y)) if self.w(x) == self.w(y) => return self.eq(x, y),
                (N::Concat(x), N::Concat(y)) if x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| self.w(*p) == self.w(*q)) => {
                    let mut r = self.t;
                    for (p, q) in x.iter().zip(y.iter()) { let c = self.eq(*p, *q); r = self.and(r, c); }
                    return r;
                }
                (N::Sha(x), N::Sha(y)) => return self.eq_sha(&x, &y),
                _ => {}
            }
        }
        self.mk(N::Eq(a, b), 1)
    }
    /// SHA-256 is taken to be collision free: equal digests mean equal inputs.
    fn eq_sha(&mut self, x: &[By], y: &[By]) -> E {
        if x.len() != y.len() { return self.f; }
        self.eq_bytes(x, y)
    }
    fn sha_run(&self, x: &[By], i: usize) -> Option<E> {
        let e = x[i].e;
        if e == 0 || x[i].i != 0 || i + 32 > x.len() || !matches!(self.n[e as usize].0, N::Sha(_)) { return None; }
        (0..32).all(|k| x[i + k] == By { e, i: k as u32 }).then_some(e)
    }
    pub fn sha_const(&self, e: E) -> Option<[u8; 32]> {
        let N::Sha(v) = &self.n[e as usize].0 else { return None };
        let mut d = Vec::with_capacity(v.len());
        let mut i = 0;
        while i < v.len() {
            if let Some(k) = v[i].konst() { d.push(k); i += 1; }
            else if let Some(s) = self.sha_run(v, i) { d.extend_from_slice(&self.sha_const(s)?); i += 32; }
            else { return None; }
        }
        Some(crate::sha::sha256(&d))
    }
    /// Equality of two byte strings of the same length. Digests are compared structurally.
    pub fn eq_bytes(&mut self, x: &[By], y: &[By]) -> E {
        assert_eq!(x.len(), y.len());
        // constants first: most differences show there
        for i in 0..x.len() { if let (Some(a), Some(b)) = (x[i].konst(), y[i].konst()) { if a != b { return self.f; } } }
        let mut r = self.t;
        let mut i = 0;
        while i < x.len() {
            if x[i] == y[i] { i += 1; continue; }
            let (sx, sy) = (self.sha_run(x, i), self.sha_run(y, i));
            if let (Some(a), Some(b)) = (sx, sy) {
                let c = self.eq(a, b);
                r = self.and(r, c);
                if r == self.f { return r; }
                i += 32;
                continue;
            }
            if let Some((s, o)) = sx.map(|s| (s, &y[i..i + 32])).or_else(|| sy.map(|s| (s, &x[i..i + 32]))) {
                if o.iter().all(|b| b.e == 0) {
                    // a digest against constant bytes: equal only if those are the digest of the same input
                    let mut k = [0u8; 32];
                    for (k, b) in k.iter_mut().zip(o) { *k = b.i as u8 }
                    let c = match self.digests.get(&k).copied() { Some(d) if d == s => self.t, Some(d) => self.eq(s, d), None => self.f };
                    r = self.and(r, c);
                    if r == self.f { return r; }
                    i += 32;
                    continue;
                }
            }
            let mut j = i + 1;
            let (bx, by) = (x[i], y[i]);
            // extend over consecutive bytes of the same terms
            while j < x.len() && j - i < 16 && x[j] != y[j] && self.sha_run(x, j).is_none() && self.sha_run(y, j).is_none()
                && ((bx.e != 0 && x[j].e == bx.e && x[j].i == bx.i + (j - i) as u32) || (bx.e == 0 && x[j].e == 0))
                && ((by.e != 0 && y[j].e == by.e && y[j].i == by.i + (j - i) as u32) || (by.e == 0 && y[j].e == 0)) { j += 1; }
            let a = self.from_bytes(&x[i..j]);
            let b = self.from_bytes(&y[i..j]);
            let c = self.eq(a, b);
            r = self.and(r, c);
            if r == self.f { return r; }
            i = j;
        }
        r
    }

    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b { return self.f; }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ka, kb) = (self.is_k(a), self.is_k(b));
        if let (Some(x), Some(y)) = (ka, kb) { return self.b(x < y); }
        if kb == Some(0) || ka == Some(mask(w)) { return self.f; }
        if kb.is_some() && self.is_ite_tree(a) { return self.map_leaves(a, &mut |s, l| s.ult(l, b)); }
        if ka.is_some() && self.is_ite_tree(b) { return self.map_leaves(b, &mut |s, l| s.ult(a, l)); }
        if kb == Some(1) { let z = self.k(0, w); return self.eq(a, z); }
        if ka == Some(0) { let z = self.k(0, w); let q = self.eq(b, z); return self.not(q); }
        if w == 1 { let na = self.not(a); return self.and(na, b); }
        match (self.n[a as usize].0.clone(), self.n[b as usize].0.clone()) {
            (N::ZExt(x), N::ZExt(y)) if self.w(x) == self.w(y) => return self.ult(x, y),
            (N::ZExt(x), N::Const(y)) => { let wx = self.w(x); if y > mask(wx) { return self.t; } let k = self.k(y, wx); return self.ult(x, k); }
            (N::Const(x), N::ZExt(y)) => { let wy = self.w(y); if x >= mask(wy) { return self.f; } let k = self.k(x, wy); return self.ult(k, y); }
            (N::Concat(x), N::Concat(y)) if self.w(x[0]) == self.w(y[0]) && x[0] == y[0] => {
                // common leading field
                let wr = w - self.w(x[0]);
                let p = self.extract(a, 0, wr);
                let q = self.extract(b, 0, wr);
                return self.ult(p, q);
            }
            _ => {}
        }
        self.mk(N::Ult(a, b), 1)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b { return self.f; }
        let w = self.w(a);
        let (ka, kb) = (self.is_k(a), self.is_k(b));
        if let (Some(x), Some(y)) = (ka, kb) { return self.b(sx(x, w) < sx(y, w)); }
        if kb.is_some() && self.is_ite_tree(a) { return self.map_leaves(a, &mut |s, l| s.slt(l, b)); }
        if ka.is_some() && self.is_ite_tree(b) { return self.map_leaves(b, &mut |s, l| s.slt(a, l)); }
        if w == 1 { let nb = self.not(b); return self.and(a, nb); }
        let za = matches!(self.n[a as usize].0, N::ZExt(_)) || ka.map_or(false, |v| sx(v, w) >= 0);
        let zb = matches!(self.n[b as usize].0, N::ZExt(_)) || kb.map_or(false, |v| sx(v, w) >= 0);
        if za && zb { return self.ult(a, b); }
        self.mk(N::Slt(a, b), 1)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b { return a; }
        if let Some(k) = self.is_k(c) { return if k == 1 { a } else { b }; }
        // keep the condition positive
        if let N::Bin(B::Xor, x, y) = self.n[c as usize].0 { if self.is_k(y) == Some(1) && self.w(c) == 1 { return self.ite(x, b, a); } }
        if self.w(a) == 1 {
            match (self.is_k(a), self.is_k(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let n = self.not(c); return self.and(n, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
        }
        if let N::Ite(c2, x, _) = self.n[a as usize].0 { if c2 == c { return self.ite(c, x, b); } }
        if let N::Ite(c2, _, y) = self.n[b as usize].0 { if c2 == c { return self.ite(c, a, y); } }
        let w = self.w(a);
        self.mk(N::Ite(c, a, b), w)
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let we = self.w(e);
        debug_assert!(lo + w <= we && w > 0);
        if w == we { return e; }
        match self.n[e as usize].0.clone() {
            N::Const(v) => self.k(v >> lo, w),
            N::Extract(x, l) => self.extract(x, l + lo, w),
            N::ZExt(x) => {
                let wx = self.w(x);
                if lo >= wx { self.k(0, w) } else if lo + w <= wx { self.extract(x, lo, w) } else { let p = self.extract(x, lo, wx - lo); self.zext(p, w) }
            }
            N::SExt(x) if lo + w <= self.w(x) => self.extract(x, lo, w),
            N::Concat(v) => {
                let mut out = vec![];
                let mut pos = 0;
                for &p in v.iter().rev() {
                    let wp = self.w(p);
                    let (l, h) = (lo.max(pos), (lo + w).min(pos + wp));
                    if l < h { let q = self.extract(p, l - pos, h - l); out.push(q); }
                    pos += wp;
                }
                out.reverse();
                self.concat(&out)
            }
            N::Ite(..) if self.is_ite_tree(e) => self.map_leaves(e, &mut |s, l| s.extract(l, lo, w)),
            N::Ite(c, a, b) if self.is_k(a).is_some() || self.is_k(b).is_some() => { let x = self.extract(a, lo, w); let y = self.extract(b, lo, w); self.ite(c, x, y) }
            N::Bin(op @ (B::And | B::Or | B::Xor), a, b) => { let x = self.extract(a, lo, w); let y = self.extract(b, lo, w); self.bin(op, x, y) }
            N::Bin(op @ (B::Add | B::Sub | B::Mul), a, b) if lo == 0 => { let x = self.extract(a, 0, w); let y = self.extract(b, 0, w); self.bin(op, x, y) }
            N::Sha(_) if w % 8 == 0 && lo % 8 == 0 && w <= 128 => {
                if let Some(d) = self.sha_const(e) { let mut v = 0u128; for i in (0..w / 8).rev() { v = v << 8 | d[(lo / 8 + i) as usize] as u128; } return self.k(v, w); }
                self.mk(N::Extract(e, lo), w)
            }
            _ => self.mk(N::Extract(e, lo), w),
        }
    }
    pub fn concat(&mut self, parts: &[E]) -> E {
        let mut v: Vec<E> = vec![];
        for &p in parts {
            let sub: Vec<E> = match &self.n[p as usize].0 { N::Concat(x) => x.to_vec(), N::ZExt(x) => { let x = *x; let z = self.kz_any(self.w(p) - self.w(x)); let mut r = z; r.push(x); r } _ => vec![p] };
            for q in sub {
                if let Some(&l) = v.last() {
                    let (wl, wq) = (self.w(l), self.w(q));
                    // merge adjacent constants and adjacent extracts
                    if let (Some(a), Some(b)) = (self.is_k(l), self.is_k(q)) { if wl + wq <= 128 { v.pop(); let n = self.k(a << wq | b, wl + wq); v.push(n); continue; } }
                    let whole = |s: &Self, x: E| match s.n[x as usize].0 { N::Extract(y, lo) => (y, lo), _ => (x, 0) };
                    let ((xl, ll), (xq, lq)) = (whole(self, l), whole(self, q));
                    if xl == xq && ll == lq + wq && (xl != l) { v.pop(); let n = self.extract(xl, lq, wl + wq); v.push(n); continue; }
                }
                v.push(q);
            }
        }
        if v.len() == 1 { return v[0]; }
        if v.len() == 2 && self.is_k(v[0]) == Some(0) { let w = self.w(v[0]) + self.w(v[1]); return self.mk(N::ZExt(v[1]), w); }
        let w = v.iter().map(|&x| self.w(x)).sum();
        self.mk(N::Concat(v.into()), w)
    }
    fn kz_any(&mut self, mut w: u32) -> Vec<E> { let mut v = vec![]; while w > 128 { v.push(self.k(0, 128)); w -= 128; } if w > 0 { v.push(self.k(0, w)); } v }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let we = self.w(e);
        if we == w { return e; }
        if let Some(v) = self.is_k(e) { if w <= 128 { return self.k(v, w); } }
        if self.is_ite_tree(e) && w <= 128 { return self.map_leaves(e, &mut |s, l| s.zext(l, w)); }
        if let N::ZExt(x) = self.n[e as usize].0 { return self.zext(x, w); }
        if matches!(self.n[e as usize].0, N::Concat(_)) && w - we <= 128 { let z = self.k(0, w - we); return self.concat(&[z, e]); }
        self.mk(N::ZExt(e), w)
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let we = self.w(e);
        if we == w { return e; }
        if let Some(v) = self.is_k(e) { if w <= 128 { return self.k(sx(v, we) as u128, w); } }
        if we == 1 && w <= 128 { let a = self.k(u128::MAX, w); let b = self.k(0, w); return self.ite(e, a, b); }
        if self.is_ite_tree(e) && w <= 128 { return self.map_leaves(e, &mut |s, l| s.sext(l, w)); }
        match self.n[e as usize].0 { N::ZExt(x) => return self.zext(x, w), N::SExt(x) => return self.sext(x, w), _ => {} }
        self.mk(N::SExt(e), w)
    }
    pub fn sha(&mut self, d: Box<[By]>) -> E {
        let e = self.mk(N::Sha(d), 256);
        if let Some(d) = self.sha_const(e) { self.digests.insert(d, e); }
        e
    }

    /// Byte `i` of a term, in canonical form (never a byte of an extract, concat or extension when avoidable).
    pub fn byte(&mut self, e: E, i: u32) -> By {
        let mut e = e;
        let mut i = i;
        loop {
            match &self.n[e as usize].0 {
                N::Const(v) => return By::c((v >> (8 * i)) as u8),
                N::Extract(x, lo) if lo % 8 == 0 => { i += lo / 8; e = *x; }
                N::ZExt(x) => { let wx = self.w(*x); if wx % 8 == 0 { if i * 8 >= wx { return By::c(0); } e = *x; } else if i * 8 >= wx { return By::c(0); } else { break; } }
                N::Concat(v) => {
                    let mut pos = 0;
                    let mut hit = None;
                    for &p in v.iter().rev() { let wp = self.w(p); if pos <= 8 * i && 8 * i + 8 <= pos + wp && (8 * i - pos) % 8 == 0 { hit = Some((p, i - pos / 8, pos % 8)); break; } pos += wp; }
                    match hit { Some((p, k, 0)) => { e = p; i = k; } _ => break }
                }
                _ => break,
            }
        }
        if self.w(e) < 8 * (i + 1) { let z = self.zext(e, 8 * (i + 1)); return By { e: z, i }; }
        if let N::Concat(_) | N::Ite(..) = self.n[e as usize].0 {
            // a byte straddling fields, or of an if-then-else: make it a term of its own
            if self.w(e) > 8 { let x = self.extract(e, 8 * i, 8); if let Some(k) = self.is_k(x) { return By::c(k as u8); } if let N::Extract(..) = self.n[x as usize].0 {} else { return By { e: x, i: 0 }; } }
        }
        By { e, i }
    }
    pub fn from_byte(&mut self, b: By) -> E { if b.e == 0 { self.k(b.i as u128, 8) } else { self.extract(b.e, 8 * b.i, 8) } }
    /// Little-endian value of bytes.
    pub fn from_bytes(&mut self, b: &[By]) -> E {
        let mut parts: Vec<E> = vec![];
        let mut i = 0;
        while i < b.len() {
            if b[i].e == 0 {
                let mut v = 0u128;
                let mut n = 0;
                while i < b.len() && b[i].e == 0 && n < 16 { v |= (b[i].i as u128) << (8 * n); n += 1; i += 1; }
                parts.push(self.k(v, 8 * n));
            } else {
                let s = b[i];
                let mut n = 1;
                while i + (n as usize) < b.len() && b[i + n as usize] == (By { e: s.e, i: s.i + n }) { n += 1; }
                let we = self.w(s.e);
                if 8 * (s.i + n) <= we { parts.push(self.extract(s.e, 8 * s.i, 8 * n)); }
                else { for k in 0..n { let z = self.zext(s.e, (8 * (s.i + k + 1)).max(we)); parts.push(self.extract(z, 8 * (s.i + k), 8)); } }
                i += n as usize;
            }
        }
        parts.reverse();
        self.concat(&parts)
    }

    /// Evaluation under a model (missing variables are 0). Digests are computed with real SHA-256.
    pub fn eval(&self, e: E, m: &[u128], memo: &mut HashMap<E, Vec<u8>, BuildFx>) -> u128 {
        let w = self.w(e);
        if w > 128 { panic!("eval of wide term"); }
        let v = self.eval_bytes(e, m, memo);
        let mut r = 0u128;
        for (i, b) in v.iter().enumerate().take(16) { r |= (*b as u128) << (8 * i); }
        r & mask(w)
    }
    pub fn eval_bytes(&self, e: E, m: &[u128], memo: &mut HashMap<E, Vec<u8>, BuildFx>) -> Vec<u8> {
        if let N::Const(v) = self.n[e as usize].0 { return v.to_le_bytes()[..((self.w(e) + 7) / 8) as usize].to_vec(); }
        if let Some(v) = memo.get(&e) { return v.clone(); }
        let w = self.w(e);
        let nb = ((w + 7) / 8) as usize;
        let small = |v: u128| { let mut b = (v & mask(w)).to_le_bytes().to_vec(); b.resize(nb.max(1), 0); b };
        let r: Vec<u8> = match &self.n[e as usize].0 {
            N::Const(_) => unreachable!(),
            N::Var(i) => small(m.get(*i as usize).copied().unwrap_or(0)),
            N::Sha(v) => {
                let mut d = Vec::with_capacity(v.len());
                for b in v.iter() { if b.e == 0 { d.push(b.i as u8); } else { let x = self.eval_bytes(b.e, m, memo); d.push(*x.get(b.i as usize).unwrap_or(&0)); } }
                crate::sha::sha256(&d).to_vec()
            }
            N::Extract(x, lo) => {
                let b = self.eval_bytes(*x, m, memo);
                let mut out = vec![0u8; nb];
                for k in 0..w { let p = lo + k; if b[(p / 8) as usize] >> (p % 8) & 1 == 1 { out[(k / 8) as usize] |= 1 << (k % 8); } }
                out
            }
            N::Concat(v) => {
                let mut out = vec![0u8; nb];
                let mut pos = 0u32;
                for &p in v.iter().rev() {
                    let b = self.eval_bytes(p, m, memo);
                    let wp = self.w(p);
                    for k in 0..wp { if b[(k / 8) as usize] >> (k % 8) & 1 == 1 { let q = pos + k; out[(q / 8) as usize] |= 1 << (q % 8); } }
                    pos += wp;
                }
                out
            }
            N::ZExt(x) => { let mut b = self.eval_bytes(*x, m, memo); b.resize(nb, 0); b }
            N::SExt(x) => { let wx = self.w(*x); let v = self.eval(*x, m, memo); let mut b = (sx(v, wx) as u128).to_le_bytes().to_vec(); b.truncate(nb); b.resize(nb, 0); if w <= 128 { b = small(sx(v, wx) as u128); } b }
            N::Ite(c, a, b) => if self.eval(*c, m, memo) == 1 { self.eval_bytes(*a, m, memo) } else { self.eval_bytes(*b, m, memo) },
            N::Eq(a, b) => { let x = self.eval_bytes(*a, m, memo); let y = self.eval_bytes(*b, m, memo); vec![(x[..x.len().min(y.len())] == y[..x.len().min(y.len())]) as u8] }
            N::Ult(a, b) => { let x = self.eval_bytes(*a, m, memo); let y = self.eval_bytes(*b, m, memo); vec![(x.iter().rev().cmp(y.iter().rev()) == std::cmp::Ordering::Less) as u8] }
            N::Slt(a, b) => { let wa = self.w(*a); vec![(sx(self.eval(*a, m, memo), wa) < sx(self.eval(*b, m, memo), wa)) as u8] }
            N::Bin(op, a, b) => { let (x, y) = (self.eval_bytes(*a, m, memo), self.eval_bytes(*b, m, memo)); 
                if w > 128 { match op { B::And => x.iter().zip(&y).map(|(p, q)| p & q).collect(), B::Or => x.iter().zip(&y).map(|(p, q)| p | q).collect(), B::Xor => x.iter().zip(&y).map(|(p, q)| p ^ q).collect(), _ => panic!("wide arithmetic") } }
                else { let f = |v: &[u8]| { let mut r = 0u128; for (i, b) in v.iter().enumerate().take(16) { r |= (*b as u128) << (8 * i); } r & mask(w) }; small(fold(*op, f(&x), f(&y), w)) } }
        };
        let mut r = r;
        r.truncate(nb.max(1));
        memo.insert(e, r.clone());
        r
    }
    pub fn vars(&self, e: E, seen: &mut std::collections::HashSet<E>, out: &mut Vec<u32>) {
        if !seen.insert(e) { return; }
        match &self.n[e as usize].0 {
            N::Const(_) => {}
            N::Var(i) => out.push(*i),
            N::Bin(_, a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) => { self.vars(*a, seen, out); self.vars(*b, seen, out); }
            N::Ite(a, b, c) => { self.vars(*a, seen, out); self.vars(*b, seen, out); self.vars(*c, seen, out); }
            N::Extract(a, _) | N::ZExt(a) | N::SExt(a) => self.vars(*a, seen, out),
            N::Concat(v) => for &x in v.iter() { self.vars(x, seen, out); },
            N::Sha(v) => for b in v.iter() { if b.e != 0 { self.vars(b.e, seen, out); } },
        }
    }
    pub fn show(&self, e: E, d: u32) -> String {
        if d == 0 { return format!("#{}", e); }
        let s = |x: &E| self.show(*x, d - 1);
        match &self.n[e as usize].0 {
            N::Const(v) => format!("{}", v), N::Var(i) => format!("v{}", i),
            N::Bin(op, a, b) => format!("({:?} {} {})", op, s(a), s(b)),
            N::Eq(a, b) => format!("(= {} {})", s(a), s(b)), N::Ult(a, b) => format!("(< {} {})", s(a), s(b)), N::Slt(a, b) => format!("(s< {} {})", s(a), s(b)),
            N::Ite(c, a, b) => format!("(ite {} {} {})", s(c), s(a), s(b)),
            N::Extract(a, lo) => format!("{}[{}+{}]", s(a), lo, self.w(e)), N::ZExt(a) => format!("(z{} {})", self.w(e), s(a)), N::SExt(a) => format!("(s{} {})", self.w(e), s(a)),
            N::Concat(v) => format!("({})", v.iter().map(|x| s(x)).collect::<Vec<_>>().join("."))
            , N::Sha(v) => format!("sha/{}", v.len()),
        }
    }
}
