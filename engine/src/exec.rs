//! Symbolic execution of the loaded program.
use crate::expr::*;
use crate::ir::{self, *};
use crate::mem::*;
use crate::solver::{Solver, R};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum V { C(u128), S(E), A(Rc<[V]>) }

pub struct Cfg { pub threads: usize, pub time: f64, pub seed: u64, pub max_insts: u64, pub max_depth: usize, pub samples: usize, pub solver_ms: u32, pub max_viol: usize, pub trace: bool, /* violation tags that do not end a run */ pub known: Vec<String> }
#[derive(Clone)]
pub struct Run { pub label: String, pub func: u32, pub params: HashMap<String, u64>, /* instructions a path may take */ pub max_insts: u64 }

/// One recorded decision; the instruction count guards against divergence when a path is replayed.
#[derive(Clone, Copy, Debug)]
pub enum D { Side(bool), Val(u128, bool), Choice(u32) }
type Log = Vec<(u64, D)>;
pub struct Job { run: usize, log: Log }

#[derive(Clone, Debug)]
pub enum Input { Int(u32, u32), Bytes(Vec<u32>), Choice(u32, u32) }
#[derive(Clone, Debug)]
pub enum Obs { Int(V), Bytes(Rc<[By]>) }

#[derive(Debug, Clone)]
pub struct Violation { pub run: usize, pub tag: String, pub msg: String, pub inputs: String, pub insts: u64 }
#[derive(Debug, Clone)]
pub struct Sample { pub run: usize, pub prio: u64, pub inputs: String, pub obs: String, pub panicked: bool }

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64, pub pruned: u64, pub forks: u64, pub insts: u64, pub decisions: u64, pub forced_by_facts: u64, pub forced_by_solver: u64,
    pub asserts: u64, pub asserts_rewritten: u64, pub asserts_by_facts: u64, pub asserts_by_solver: u64, pub panics_expected: u64,
    pub sat: u64, pub unsat: u64, pub unknown: u64, pub solver_time: f64, pub max_path_insts: u64, pub max_pc: u64, pub concretized: u64, pub replays: u64,
    pub covers: BTreeMap<String, u64>, pub tags: BTreeMap<String, u64>, pub incomplete: BTreeMap<String, u64>,
    pub digest_terms: u64, pub inputs_bits: u64,
}
impl Stats {
    fn merge(&mut self, o: &Stats) {
        macro_rules! add { ($($f:ident),*) => { $( self.$f += o.$f; )* } }
        add!(paths, pruned, forks, insts, decisions, forced_by_facts, forced_by_solver, asserts, asserts_rewritten, asserts_by_facts, asserts_by_solver, panics_expected, sat, unsat, unknown, solver_time, concretized, replays, digest_terms);
        self.max_path_insts = self.max_path_insts.max(o.max_path_insts);
        self.max_pc = self.max_pc.max(o.max_pc);
        self.inputs_bits = self.inputs_bits.max(o.inputs_bits);
        for (a, b) in [(&mut self.covers, &o.covers), (&mut self.tags, &o.tags), (&mut self.incomplete, &o.incomplete)] { for (k, v) in b { *a.entry(k.clone()).or_default() += v; } }
    }
}
#[derive(Default)]
pub struct Out { pub stats: Vec<Stats>, pub viol: Vec<Violation>, pub samples: Vec<Vec<Sample>> }

pub struct Shared {
    pub m: Module, pub runs: Vec<Run>, pub cfg: Cfg,
    pub queue: Mutex<(VecDeque<Job>, usize)>, pub cv: Condvar, pub idle: AtomicUsize, pub stop: AtomicBool, pub qlen: AtomicUsize,
    pub out: Mutex<Out>, pub cov: Vec<AtomicBool>, pub fcov: Vec<AtomicBool>, pub viol_count: Vec<AtomicU64>, pub start: Instant, pub timed_out: AtomicBool,
    /// Runs of which nothing has been explored.
    pub unstarted: AtomicUsize, pub started: Vec<AtomicBool>,
}

#[derive(Clone)]
struct Frame { func: u32, block: u32, ip: u32, regs: Vec<V>, allocas: Vec<u64>, dst: u32, normal: Option<u32> }

/// Known order between terms: `a -> (b, strict)` means a < b (strict) or a <= b, unsigned.
#[derive(Clone, Default)]
struct Order { adj: HashMap<E, Vec<(E, bool)>, BuildFx> }
impl Order {
    fn add(&mut self, a: E, b: E, strict: bool) { let v = self.adj.entry(a).or_default(); if !v.contains(&(b, strict)) { v.push((b, strict)); } }
    /// 0: unknown, 1: a <= b, 2: a < b
    fn reach(&self, a: E, b: E) -> u8 {
        let mut best: Vec<(E, bool)> = vec![(a, false)];
        let mut i = 0;
        let mut r = 0;
        while i < best.len() {
            let (x, s) = best[i];
            i += 1;
            if x == b { r = r.max(if s { 2 } else { 1 }); if r == 2 { return 2; } }
            if let Some(v) = self.adj.get(&x) {
                for &(y, t) in v {
                    let st = s || t;
                    if best.iter().any(|&(z, u)| z == y && (u || !st)) { continue; }
                    best.push((y, st));
                }
            }
        }
        r
    }
}

#[derive(Clone)]
struct State {
    run: usize,
    frames: Vec<Rc<Frame>>,
    mem: Mem,
    pc: Vec<E>,
    known: Rc<HashMap<E, bool, BuildFx>>,
    /// Terms whose value this path has fixed.
    fixed: Rc<HashMap<E, u128, BuildFx>>,
    order: Rc<Order>,
    model: Option<Rc<Vec<u128>>>,
    log: Log,
    replay: Option<(Rc<Log>, usize)>,
    inputs: Vec<Input>,
    vars: Vec<(u32, u32)>,
    obs: Vec<Obs>,
    expect_panic: bool, clock: u64,
    icount: u64,
    choice: Option<u32>,
    panicked: bool,
}

enum Stop { Fork(E, E, D, D), Choose(u32), Done, Kill, Viol(String, String), Incomplete(String) }
type Res<T> = Result<T, Stop>;
fn viol<T>(tag: &str, msg: String) -> Res<T> { Err(Stop::Viol(tag.into(), msg)) }

pub struct Worker<'a> {
    sh: &'a Shared,
    ar: Arena,
    sv: Solver,
    stats: Vec<Stats>,
    viol: Vec<Violation>,
    samples: Vec<Vec<Sample>>,
    memo_model: Option<Rc<Vec<u128>>>,
    memo: HashMap<E, Vec<u8>, BuildFx>,
    cov: Vec<bool>, fcov: Vec<bool>,
    pending_model: Option<Rc<Vec<u128>>>,
    synced: std::time::Instant,
    reported: HashMap<(usize, String, String), u32>,
}

fn fbits(w: u32, v: f64) -> u128 { if w == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 } }
fn ffrom(w: u32, v: u128) -> f64 { if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) } }

impl<'a> Worker<'a> {
    pub fn new(sh: &'a Shared) -> Self {
        let n = sh.runs.len();
        Worker { sh, ar: Arena::new(), sv: Solver::new(sh.cfg.solver_ms), stats: vec![Stats::default(); n], viol: vec![], samples: vec![vec![]; n], memo_model: None, memo: Default::default(), cov: vec![false; sh.m.locs.len()], fcov: vec![false; sh.m.funcs.len()], pending_model: None, synced: std::time::Instant::now(), reported: Default::default() }
    }

    // ---------- values ----------
    fn e(&mut self, v: &V, w: u32) -> E {
        match v { V::C(c) => self.ar.k(*c, w), V::S(e) => { debug_assert_eq!(self.ar.w(*e), w); *e } V::A(_) => panic!("aggregate where an integer was expected") }
    }
    fn v(&self, e: E) -> V { if let Some(k) = self.ar.is_k(e) { V::C(k) } else { V::S(e) } }
    fn kval(k: &K) -> V { match k { K::I(x) => V::C(*x), K::A(v) => V::A(v.iter().map(Self::kval).collect::<Vec<_>>().into()) } }
    fn get(&self, st: &State, o: &O) -> V {
        match o { O::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(), O::C(c) => V::C(*c as u128), O::K(k) => Self::kval(&self.sh.m.consts[*k as usize]) }
    }
    fn set(st: &mut State, dst: u32, v: V) { if dst != u32::MAX { Rc::make_mut(st.frames.last_mut().unwrap()).regs[dst as usize] = v; } }
    fn ty(&self, t: TId) -> &'a Ty { &self.sh.m.tys[t as usize] }
    fn width(&self, t: TId) -> u32 { match &self.ty(t).k { TyK::Int(w) | TyK::Flt(w) => *w, TyK::Ptr => 64, _ => 0 } }
    fn lane(v: &V, i: usize) -> V { match v { V::A(a) => a[i].clone(), V::C(0) => V::C(0), x => { debug_assert!(i == 0); x.clone() } } }

    // ---------- decisions ----------
    fn eval(&mut self, st: &State, e: E) -> u128 {
        let m = st.model.as_ref().expect("model");
        if !self.memo_model.as_ref().map_or(false, |x| Rc::ptr_eq(x, m)) { self.memo.clear(); self.memo_model = Some(m.clone()); }
        self.ar.eval(e, m, &mut self.memo)
    }
    fn strip(&self, e: E) -> (E, bool) {
        let mut e = e;
        let mut neg = false;
        while let N::Bin(B::Xor, x, y) = self.ar.n[e as usize].0 { if self.ar.w(e) == 1 && self.ar.is_k(y) == Some(1) { e = x; neg = !neg; } else { break; } }
        (e, neg)
    }
    fn known(&self, st: &State, e: E) -> Option<bool> {
        let (e, neg) = self.strip(e);
        let r = match self.ar.n[e as usize].0 {
            N::Const(v) => Some(v == 1),
            N::Ult(a, b) => st.known.get(&e).copied().or_else(|| { if st.order.reach(a, b) == 2 { Some(true) } else if st.order.reach(b, a) >= 1 { Some(false) } else { None } }),
            N::Eq(a, b) => st.known.get(&e).copied().or_else(|| {
                let (x, y) = (st.order.reach(a, b), st.order.reach(b, a));
                if x == 2 || y == 2 { Some(false) } else if x == 1 && y == 1 { Some(true) } else { None } }),
            N::Bin(B::And, a, b) if self.ar.w(e) == 1 => st.known.get(&e).copied().or_else(|| match (self.known(st, a), self.known(st, b)) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None }),
            N::Bin(B::Or, a, b) if self.ar.w(e) == 1 => st.known.get(&e).copied().or_else(|| match (self.known(st, a), self.known(st, b)) { (Some(true), _) | (_, Some(true)) => Some(true), (Some(false), Some(false)) => Some(false), _ => None }),
            N::Ite(c, a, b) if self.ar.w(e) == 1 => st.known.get(&e).copied().or_else(|| match self.known(st, c) { Some(true) => self.known(st, a), Some(false) => self.known(st, b), None => None }),
            _ => st.known.get(&e).copied(),
        };
        r.map(|x| x ^ neg)
    }
    fn learn(&mut self, st: &mut State, e: E, val: bool) {
        let (e, neg) = self.strip(e);
        let val = val ^ neg;
        if Rc::make_mut(&mut st.known).insert(e, val) == Some(val) { return; }
        match self.ar.n[e as usize].0 {
            N::Bin(B::And, a, b) if val => { self.learn(st, a, true); self.learn(st, b, true); }
            N::Bin(B::Or, a, b) if !val => { self.learn(st, a, false); self.learn(st, b, false); }
            N::Ult(a, b) => { let o = Rc::make_mut(&mut st.order); if val { o.add(a, b, true) } else { o.add(b, a, false) } }
            N::Eq(a, b) if val && self.ar.w(a) > 1 => { let o = Rc::make_mut(&mut st.order); o.add(a, b, false); o.add(b, a, false); }
            N::Eq(a, b) if !val && self.ar.w(a) > 1 => {
                // a <= b and a != b
                let (x, y) = (st.order.reach(a, b), st.order.reach(b, a));
                let o = Rc::make_mut(&mut st.order);
                if x == 1 { o.add(a, b, true) } else if y == 1 { o.add(b, a, true) }
            }
            _ => {}
        }
    }
    fn query(&mut self, st: &State, extra: Option<E>) -> Res<Option<Rc<Vec<u128>>>> {
        match self.sv.check(&self.ar, &st.pc, extra, &st.vars) {
            R::Unsat => Ok(None),
            R::Sat(mut m) => {
                if let Some(l) = st.vars.last() { if m.len() <= l.0 as usize { m.resize(l.0 as usize + 1, 0); } }
                // the model must satisfy the constraints when digests are the real ones
                self.memo.clear();
                self.memo_model = None;
                let mut memo = Default::default();
                for &p in st.pc.iter().chain(extra.iter()) { if self.ar.eval(p, &m, &mut memo) != 1 { return Err(Stop::Incomplete(format!("a model that depends on digest values: {}", self.ar.show(p, 4)))); } }
                Ok(Some(Rc::new(m)))
            }
            R::Unknown(s) => Err(Stop::Incomplete(format!("solver: {}", s))),
        }
    }
    fn other(&mut self, e: E, side: bool) -> E { if side { self.ar.not(e) } else { e } }
    fn next_replay(st: &mut State) -> Res<Option<D>> {
        if let Some((l, i)) = &mut st.replay {
            if *i < l.len() {
                let (ic, d) = l[*i];
                if ic != st.icount { return Err(Stop::Incomplete("replayed path diverged".into())); }
                *i += 1;
                st.log.push((ic, d));
                return Ok(Some(d));
            }
        }
        Ok(None)
    }
    /// The log has been replayed in full: get a model and go on exploring.
    fn end_replay(&mut self, st: &mut State) -> Res<()> {
        if st.replay.is_some() {
            st.replay = None;
            match self.query(st, None)? { Some(m) => st.model = Some(m), None => return Err(Stop::Incomplete("replayed path became infeasible".into())) }
        }
        Ok(())
    }
    fn decide(&mut self, st: &mut State, c: E) -> Res<bool> {
        if let Some(k) = self.ar.is_k(c) { return Ok(k == 1); }
        if let Some(k) = self.known(st, c) { self.stats[st.run].forced_by_facts += 1; return Ok(k); }
        match Self::next_replay(st)? {
            Some(D::Side(b)) => { let x = if b { c } else { self.ar.not(c) }; st.pc.push(x); self.learn(st, c, b); return Ok(b); }
            Some(_) => return Err(Stop::Incomplete("replayed path diverged (kind)".into())),
            None => {}
        }
        self.end_replay(st)?;
        self.stats[st.run].decisions += 1;
        let side = self.eval(st, c) == 1;
        let x = self.other(c, side);
        match self.query(st, Some(x))? {
            None => { self.stats[st.run].forced_by_solver += 1; st.log.push((st.icount, D::Side(side))); let y = if side { c } else { self.ar.not(c) }; st.pc.push(y); self.learn(st, c, side); Ok(side) }
            Some(m) => { self.pending_model = Some(m); Err(Stop::Fork(c, c, D::Side(side), D::Side(!side))) }
        }
    }
    /// Fixes the value of a term on this path, forking for its other values.
    fn conc(&mut self, st: &mut State, e: E) -> Res<u128> {
        if let Some(k) = self.ar.is_k(e) { return Ok(k); }
        // a value fixed before is not decided again, on replay as well as the first time
        if let Some(v) = st.fixed.get(&e) { return Ok(*v); }
        loop {
            let (v, logged) = match Self::next_replay(st)? {
                Some(D::Val(v, b)) => (v, Some(b)),
                Some(_) => return Err(Stop::Incomplete("replayed path diverged (value)".into())),
                None => { self.end_replay(st)?; (self.eval(st, e), None) }
            };
            let k = self.ar.k(v, self.ar.w(e));
            let c = self.ar.eq(e, k);
            match logged {
                Some(b) => { let x = if b { c } else { self.ar.not(c) }; st.pc.push(x); self.learn(st, c, b); if b { Rc::make_mut(&mut st.fixed).insert(e, v); return Ok(v); } }
                None => {
                    if let Some(b) = self.ar.is_k(c).map(|k| k == 1) { if b { return Ok(v); } return Err(Stop::Incomplete("inconsistent facts".into())); }
                    self.stats[st.run].concretized += 1;
                    let x = self.ar.not(c);
                    match self.query(st, Some(x))? {
                        None => { self.stats[st.run].forced_by_solver += 1; st.log.push((st.icount, D::Val(v, true))); st.pc.push(c); self.learn(st, c, true); Rc::make_mut(&mut st.fixed).insert(e, v); return Ok(v); }
                        Some(m) => { self.pending_model = Some(m); return Err(Stop::Fork(c, e, D::Val(v, true), D::Val(v, false))); }
                    }
                }
            }
        }
    }
    fn cv(&mut self, st: &mut State, v: &V) -> Res<u128> { match v { V::C(c) => Ok(*c), V::S(e) => self.conc(st, *e), V::A(_) => panic!("aggregate address") } }
    fn addr(&mut self, st: &mut State, o: &O) -> Res<u64> { let v = self.get(st, o); Ok(self.cv(st, &v)? as u64) }

    // ---------- memory ----------
    fn memerr<T>(&self, r: Result<T, String>) -> Res<T> { r.or_else(|m| viol("memory", m)) }
    fn load(&mut self, st: &State, t: TId, a: u64) -> Res<V> {
        let m = &self.sh.m;
        let ty = self.ty(t);
        match &ty.k {
            TyK::Int(_) | TyK::Ptr | TyK::Flt(_) => {
                let w = self.width(t);
                let n = ty.store as usize;
                let r = st.mem.read(m, a, n);
                match self.memerr(r)? {
                    View::B(b) => { let mut x = [0u8; 16]; x[..n.min(16)].copy_from_slice(&b[..n.min(16)]); if n > 16 { return Err(Stop::Incomplete("wide integer load".into())); } Ok(V::C(u128::from_le_bytes(x) & mask(w))) }
                    View::S(s, _) => { let e = self.ar.from_bytes(s); let e = self.ar.extract(e, 0, w); Ok(self.v(e)) }
                }
            }
            TyK::Vec(n, e) => {
                let ew = self.width(*e);
                if ew % 8 == 0 { let mut v = vec![]; for i in 0..*n as u64 { v.push(self.load(st, *e, a + i * (ew as u64 / 8))?); } Ok(V::A(v.into())) }
                else {
                    let r = st.mem.bytes(m, a, ty.store as usize);
                    let b = self.memerr(r)?;
                    let x = self.ar.from_bytes(&b);
                    let v: Vec<V> = (0..*n).map(|i| { let l = self.ar.extract(x, i * ew, ew); self.v(l) }).collect();
                    Ok(V::A(v.into()))
                }
            }
            TyK::Arr(n, e) => { let s = self.ty(*e).size; let mut v = vec![]; for i in 0..*n { v.push(self.load(st, *e, a + i * s)?); } Ok(V::A(v.into())) }
            TyK::Struct(f) => { let mut v = vec![]; for (e, o) in f { v.push(self.load(st, *e, a + o)?); } Ok(V::A(v.into())) }
            _ => Err(Stop::Incomplete("load type".into())),
        }
    }
    fn store(&mut self, st: &mut State, t: TId, v: &V, a: u64) -> Res<()> {
        let m = &self.sh.m;
        let ty = self.ty(t);
        match &ty.k {
            TyK::Int(_) | TyK::Ptr | TyK::Flt(_) => {
                let n = ty.store as usize;
                let r = match v {
                    V::C(c) => { if n > 16 { return Err(Stop::Incomplete("wide integer store".into())); } st.mem.write(m, a, &c.to_le_bytes()[..n]) }
                    V::S(e) => { let z = self.ar.zext(*e, 8 * n as u32); let b: Vec<By> = (0..n as u32).map(|i| self.ar.byte(z, i)).collect(); st.mem.write_sym(m, a, &b) }
                    V::A(_) => panic!("store of aggregate as scalar"),
                };
                self.memerr(r)
            }
            TyK::Vec(n, e) => {
                let ew = self.width(*e);
                if ew % 8 == 0 { for i in 0..*n as u64 { let x = Self::lane(v, i as usize); self.store(st, *e, &x, a + i * (ew as u64 / 8))?; } Ok(()) }
                else {
                    let x = self.vec_bits(v, *n, ew);
                    let nb = ty.store as u32;
                    let z = self.ar.zext(x, 8 * nb);
                    let b: Vec<By> = (0..nb).map(|i| self.ar.byte(z, i)).collect();
                    let r = st.mem.write_sym(m, a, &b);
                    self.memerr(r)
                }
            }
            TyK::Arr(n, e) => { let s = self.ty(*e).size; for i in 0..*n { let x = Self::lane(v, i as usize); self.store(st, *e, &x, a + i * s)?; } Ok(()) }
            TyK::Struct(f) => { for (i, (e, o)) in f.iter().enumerate() { let x = Self::lane(v, i); self.store(st, *e, &x, a + o)?; } Ok(()) }
            _ => Err(Stop::Incomplete("store type".into())),
        }
    }
    fn vec_bits(&mut self, v: &V, n: u32, ew: u32) -> E {
        let parts: Vec<E> = (0..n as usize).rev().map(|i| { let l = Self::lane(v, i); self.e(&l, ew) }).collect();
        self.ar.concat(&parts)
    }
    fn bytes(&mut self, st: &State, a: u64, n: usize) -> Res<Vec<By>> { let r = st.mem.bytes(&self.sh.m, a, n); self.memerr(r) }
    fn cstr(&mut self, st: &State, a: u64, n: usize) -> Res<String> {
        let b = self.bytes(st, a, n)?;
        Ok(String::from_utf8_lossy(&b.iter().map(|x| if x.e == 0 { x.i as u8 } else { b'?' }).collect::<Vec<_>>()).into_owned())
    }

    // ---------- arithmetic ----------
    fn binv(&mut self, op: B, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) { return V::C(fold(op, *x, *y, w)); }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.ar.bin(op, x, y);
        self.v(r)
    }
    fn cmpv(&mut self, p: ir::P, w: u32, a: &V, b: &V) -> V {
        use ir::P::*;
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx_, sy) = (sx(x, w), sx(y, w));
            return V::C(match p { Eq => x == y, Ne => x != y, Ugt => x > y, Uge => x >= y, Ult => x < y, Ule => x <= y, Sgt => sx_ > sy, Sge => sx_ >= sy, Slt => sx_ < sy, Sle => sx_ <= sy } as u128);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match p {
            Eq => self.ar.eq(x, y), Ne => { let e = self.ar.eq(x, y); self.ar.not(e) }
            Ult => self.ar.ult(x, y), Ugt => self.ar.ult(y, x), Ule => { let e = self.ar.ult(y, x); self.ar.not(e) } Uge => { let e = self.ar.ult(x, y); self.ar.not(e) }
            Slt => self.ar.slt(x, y), Sgt => self.ar.slt(y, x), Sle => { let e = self.ar.slt(y, x); self.ar.not(e) } Sge => { let e = self.ar.slt(x, y); self.ar.not(e) }
        };
        self.v(r)
    }
    fn flat_width(&self, t: TId) -> (u32, u32) { match &self.ty(t).k { TyK::Vec(n, e) => (*n, self.width(*e)), _ => (1, self.width(t)) } }
    fn to_bits(&mut self, v: &V, t: TId) -> E { let (n, w) = self.flat_width(t); if let V::A(_) = v { self.vec_bits(v, n, w) } else if n > 1 { let z = V::A(vec![V::C(0); n as usize].into()); self.vec_bits(&z, n, w) } else { self.e(v, w) } }
    fn of_bits(&mut self, e: E, t: TId) -> V {
        if let TyK::Vec(n, et) = self.ty(t).k { let w = self.width(et); let v: Vec<V> = (0..n).map(|i| { let l = self.ar.extract(e, i * w, w); self.v(l) }).collect(); V::A(v.into()) } else { self.v(e) }
    }
    fn castv(&mut self, st: &mut State, k: ir::Cast, from: TId, to: TId, a: &V) -> Res<V> {
        use ir::Cast::*;
        if let (TyK::Vec(n, ft), TyK::Vec(n2, tt)) = (&self.ty(from).k, &self.ty(to).k) {
            if k != Bit { debug_assert_eq!(n, n2); let (ft, tt) = (*ft, *tt); let mut v = vec![]; for i in 0..*n as usize { let l = Self::lane(a, i); v.push(self.castv(st, k, ft, tt, &l)?); } return Ok(V::A(v.into())); }
        }
        let (fw, tw) = (self.width(from), self.width(to));
        Ok(match k {
            Trunc | ZExt | SExt => match a {
                V::C(c) => V::C(match k { Trunc => c & mask(tw), ZExt => *c, _ => sx(*c, fw) as u128 & mask(tw) }),
                V::S(e) => { let r = match k { Trunc => self.ar.extract(*e, 0, tw), ZExt => self.ar.zext(*e, tw), _ => self.ar.sext(*e, tw) }; self.v(r) }
                V::A(_) => panic!("cast of aggregate"),
            },
            Bit => {
                let scalar = |s: &Self, t: TId| !matches!(s.ty(t).k, TyK::Vec(..));
                if scalar(self, from) && scalar(self, to) { return Ok(match a { V::C(c) if tw > 0 => V::C(c & mask(tw)), x => x.clone() }); }
                let e = self.to_bits(a, from);
                self.of_bits(e, to)
            }
            FpToUi => { let c = self.cv(st, a)?; let f = ffrom(fw, c); V::C((f as u128) & mask(tw)) }
            FpToSi => { let c = self.cv(st, a)?; let f = ffrom(fw, c); V::C((f as i128) as u128 & mask(tw)) }
            UiToFp => { let c = self.cv(st, a)?; V::C(if tw == 32 { (c as f32).to_bits() as u128 } else { (c as f64).to_bits() as u128 }) }
            SiToFp => { let c = sx(self.cv(st, a)?, fw); V::C(if tw == 32 { (c as f32).to_bits() as u128 } else { (c as f64).to_bits() as u128 }) }
            FpTrunc | FpExt => { let c = self.cv(st, a)?; V::C(fbits(tw, ffrom(fw, c))) }
        })
    }
    fn selv(&mut self, c: E, a: &V, b: &V, t: TId) -> Option<V> {
        match (&self.ty(t).k, a, b) {
            (TyK::Vec(n, e), _, _) => { let (n, e) = (*n, *e); let mut v = vec![]; for i in 0..n as usize { let (x, y) = (Self::lane(a, i), Self::lane(b, i)); v.push(self.selv(c, &x, &y, e)?); } Some(V::A(v.into())) }
            (TyK::Int(w) | TyK::Flt(w), _, _) => { let (x, y) = (self.e(a, *w), self.e(b, *w)); let r = self.ar.ite(c, x, y); Some(self.v(r)) }
            _ => None,
        }
    }

    // ---------- control ----------
    fn jump(&mut self, st: &mut State, to: u32) {
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        let blk = &self.sh.m.funcs[f.func as usize].blocks[to as usize];
        if !blk.phis.is_empty() {
            let from = f.block;
            let vals: Vec<(u32, V)> = blk.phis.iter().map(|(d, inc)| {
                let o = inc.iter().find(|x| x.0 == from).expect("phi edge").1;
                (*d, match o { O::R(r) => f.regs[r as usize].clone(), O::C(c) => V::C(c as u128), O::K(k) => Self::kval(&self.sh.m.consts[k as usize]) })
            }).collect();
            for (d, v) in vals { f.regs[d as usize] = v; }
        }
        f.block = to;
        f.ip = 0;
    }
    fn ret(&mut self, st: &mut State, v: Option<V>) -> Res<()> {
        let f = st.frames.pop().unwrap();
        for a in &f.allocas { let r = st.mem.free(&self.sh.m, *a, false); self.memerr(r)?; }
        if st.frames.is_empty() { return Err(Stop::Done); }
        if let Some(v) = v { Self::set(st, f.dst, v); }
        if let Some(n) = f.normal { self.jump(st, n); }
        Ok(())
    }
    fn push(&mut self, st: &mut State, func: u32, args: Vec<V>, dst: u32, normal: Option<u32>) -> Res<()> {
        let f = &self.sh.m.funcs[func as usize];
        self.fcov[func as usize] = true;
        if st.frames.len() >= self.sh.cfg.max_depth { return viol("nontermination", format!("call depth {} reached", st.frames.len())); }
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (i, a) in args.into_iter().enumerate().take(f.nargs as usize) { regs[i] = a; }
        st.frames.push(Rc::new(Frame { func, block: 0, ip: 0, regs, allocas: vec![], dst, normal }));
        Ok(())
    }

    fn step(&mut self, st: &mut State) -> Res<()> {
        let f = st.frames.last().unwrap();
        let m: &'a Module = &self.sh.m;
        let (block, ip) = (f.block, f.ip);
        let inst = &m.funcs[f.func as usize].blocks[block as usize].insts[ip as usize];
        self.cov[inst.loc as usize] = true;
        st.icount += 1;
        if st.icount > self.sh.runs[st.run].max_insts { return viol("nontermination", format!("{} instructions executed", st.icount)); }
        macro_rules! next { () => { Rc::make_mut(st.frames.last_mut().unwrap()).ip = ip + 1 } }
        macro_rules! done { ($v:expr) => {{ let v = $v; let f = Rc::make_mut(st.frames.last_mut().unwrap()); f.ip = ip + 1; if inst.dst != u32::MAX { f.regs[inst.dst as usize] = v; } }} }
        match &inst.i {
            I::Nop => next!(),
            I::Bin { op, w, n, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                if *n == 0 {
                    if matches!(op, B::UDiv | B::SDiv | B::URem | B::SRem) { if let V::C(0) = y { return viol("undefined-behaviour", "division by zero".into()); } }
                    done!(self.binv(*op, *w, &x, &y))
                } else { let v: Vec<V> = (0..*n as usize).map(|i| { let (p, q) = (Self::lane(&x, i), Self::lane(&y, i)); self.binv(*op, *w, &p, &q) }).collect(); done!(V::A(v.into())) }
            }
            I::FBin { op, w, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                if *w == 32 || *w == 64 {
                    let minus = 1u128 << (w - 1);
                    let one = fbits(*w, 1.0);
                    // what leaves all numbers, or all but a zero, as they are
                    let r = match (op, &x, &y) {
                        (FB::Add, V::S(_), V::C(0)) | (FB::Add, V::C(0), V::S(_)) => { let x = if let V::S(_) = x { &x } else { &y }; let q = self.cmpv(ir::P::Eq, *w, x, &V::C(minus)); Some(self.ite_v(q, V::C(0), x.clone(), *w)) }
                        (FB::Add | FB::Sub, V::S(_), V::C(c)) if *c == if matches!(op, FB::Add) { minus } else { 0 } => Some(x.clone()),
                        (FB::Mul | FB::Div, V::S(_), V::C(c)) if *c == one => Some(x.clone()),
                        _ => None,
                    };
                    if let Some(r) = r {
                        let (low, inf, quiet) = (V::C(mask(*w) >> 1), V::C(fbits(*w, f64::INFINITY)), V::C(1 << if *w == 32 { 22 } else { 51 }));
                        let abs = self.binv(B::And, *w, &r, &low);
                        let nan = self.cmpv(ir::P::Ugt, *w, &abs, &inf);
                        let q = self.binv(B::Or, *w, &r, &quiet);
                        done!(self.ite_v(nan, q, r, *w))
                    }
                }
                let (x, y) = (ffrom(*w, self.cv(st, &x)?), ffrom(*w, self.cv(st, &y)?));
                let r = match op { FB::Add => x + y, FB::Sub => x - y, FB::Mul => x * y, FB::Div => x / y, FB::Rem => x % y };
                done!(V::C(fbits(*w, r)))
            }
            I::FNeg { w, a } if *w == 32 || *w == 64 => { let x = self.get(st, a); done!(self.binv(B::Xor, *w, &x, &V::C(1 << (w - 1)))) }
            I::FNeg { w, a } => { let x = self.get(st, a); let x = ffrom(*w, self.cv(st, &x)?); done!(V::C(fbits(*w, -x))) }
            I::Cmp { p, w, n, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                if *n == 0 { done!(self.cmpv(*p, *w, &x, &y)) }
                else { let v: Vec<V> = (0..*n as usize).map(|i| { let (s, t) = (Self::lane(&x, i), Self::lane(&y, i)); self.cmpv(*p, *w, &s, &t) }).collect(); done!(V::A(v.into())) }
            }
            I::FCmp { p, w, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                if matches!((&x, &y), (V::S(_), _) | (_, V::S(_))) && (*w == 32 || *w == 64) && *p > 0 && *p < 15 { done!(self.fcmpv(*p, *w, &x, &y)) }
                let (x, y) = (ffrom(*w, self.cv(st, &x)?), ffrom(*w, self.cv(st, &y)?));
                let o = x.partial_cmp(&y);
                use std::cmp::Ordering::*;
                let r = match p { 0 => false, 1 => o == Some(Equal), 2 => o == Some(Greater), 3 => matches!(o, Some(Greater | Equal)), 4 => o == Some(Less), 5 => matches!(o, Some(Less | Equal)), 6 => matches!(o, Some(Less | Greater)), 7 => o.is_some(), 8 => o.is_none(),
                    9 => o.is_none() || o == Some(Equal), 10 => o.is_none() || o == Some(Greater), 11 => o != Some(Less), 12 => o.is_none() || o == Some(Less), 13 => o != Some(Greater), 14 => o != Some(Equal), _ => true };
                done!(V::C(r as u128))
            }
            I::Alloca { size, count } => {
                let c = self.get(st, count);
                let c = self.cv(st, &c)? as u64;
                let a = st.mem.alloc(m, (size * c) as usize, false);
                Rc::make_mut(st.frames.last_mut().unwrap()).allocas.push(a);
                done!(V::C(a as u128))
            }
            I::Load { ty, p } => { let a = self.addr(st, p)?; let v = self.load(st, *ty, a)?; done!(v) }
            I::Store { ty, v, p } => { let a = self.addr(st, p)?; let v = self.get(st, v); self.store(st, *ty, &v, a)?; next!() }
            I::Gep { base, off, idx } => {
                let b = self.get(st, base);
                let mut acc = self.binv(B::Add, 64, &b, &V::C(*off as u64 as u128));
                for (o, w, s) in idx {
                    let v = self.get(st, o);
                    let v = match v { V::C(c) => V::C(if *w >= 64 { c as u64 as u128 } else { sx(c, *w) as u64 as u128 }), V::S(e) => { let x = if *w >= 64 { self.ar.extract(e, 0, 64) } else { self.ar.sext(e, 64) }; self.v(x) } V::A(_) => return Err(Stop::Incomplete("vector gep".into())) };
                    let t = self.binv(B::Mul, 64, &v, &V::C(*s as u128));
                    acc = self.binv(B::Add, 64, &acc, &t);
                }
                done!(acc)
            }
            I::Cast { k, from, to, a } => { let x = self.get(st, a); let v = self.castv(st, *k, *from, *to, &x)?; done!(v) }
            I::Select { c, vec, ty, a, b } => {
                let cv = self.get(st, c);
                if *vec {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let TyK::Vec(n, et) = m.tys[*ty as usize].k else { panic!() };
                    let mut v = vec![];
                    for i in 0..n as usize {
                        let (ci, p, q) = (Self::lane(&cv, i), Self::lane(&x, i), Self::lane(&y, i));
                        v.push(match ci { V::C(1) => p, V::C(_) => q, V::S(e) => match self.selv(e, &p, &q, et) { Some(v) => v, None => return Err(Stop::Incomplete("vector select".into())) }, _ => panic!() });
                    }
                    done!(V::A(v.into()))
                } else {
                    let r = match cv {
                        V::C(k) => self.get(st, if k == 1 { a } else { b }),
                        V::S(e) => {
                            if let Some(k) = self.known(st, e) { self.get(st, if k { a } else { b }) }
                            else {
                                let (x, y) = (self.get(st, a), self.get(st, b));
                                match self.selv(e, &x, &y, *ty) { Some(v) => v, None => if self.decide(st, e)? { x } else { y } }
                            }
                        }
                        _ => panic!(),
                    };
                    done!(r)
                }
            }
            I::ExtractValue { a, path } => { let mut v = self.get(st, a); for &i in path { v = Self::lane(&v, i as usize); } done!(v) }
            I::InsertValue { a, b, path } => {
                let base = self.get(st, a);
                let v = self.get(st, b);
                fn ins(base: &V, path: &[u32], v: V) -> V {
                    if path.is_empty() { return v; }
                    let mut x: Vec<V> = match base { V::A(a) => a.to_vec(), _ => vec![] };
                    while x.len() <= path[0] as usize { x.push(V::C(0)); }
                    let n = ins(&x[path[0] as usize].clone(), &path[1..], v);
                    x[path[0] as usize] = n;
                    V::A(x.into())
                }
                done!(ins(&base, path, v))
            }
            I::ExtractElement { a, i } => { let v = self.get(st, a); let k = self.get(st, i); let k = self.cv(st, &k)? as usize; done!(Self::lane(&v, k)) }
            I::InsertElement { a, b, i } => {
                let base = self.get(st, a);
                let v = self.get(st, b);
                let k = self.get(st, i);
                let k = self.cv(st, &k)? as usize;
                let mut x: Vec<V> = match base { V::A(a) => a.to_vec(), _ => vec![] };
                while x.len() <= k { x.push(V::C(0)); }
                x[k] = v;
                done!(V::A(x.into()))
            }
            I::Shuffle { a, b, mask } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let n = match (&x, &y) { (V::A(p), _) | (_, V::A(p)) => p.len(), _ => mask.len() } as i32;
                let l = |v: &V, i: usize| match v { V::A(a) => a.get(i).cloned().unwrap_or(V::C(0)), _ => V::C(0) };
                let v: Vec<V> = mask.iter().map(|&k| if k < 0 { V::C(0) } else if k < n { l(&x, k as usize) } else { l(&y, (k - n) as usize) }).collect();
                done!(V::A(v.into()))
            }
            I::Copy { a } => done!(self.get(st, a)),
            I::Rmw { op, ty, p, v } => {
                let a = self.addr(st, p)?;
                let w = self.width(*ty);
                let old = self.load(st, *ty, a)?;
                let v = self.get(st, v);
                let new = match op { 0 => v, 1 => self.binv(B::Add, w, &old, &v), 2 => self.binv(B::Sub, w, &old, &v), 3 => self.binv(B::And, w, &old, &v), 5 => self.binv(B::Or, w, &old, &v), 6 => self.binv(B::Xor, w, &old, &v),
                    _ => return Err(Stop::Incomplete(format!("atomicrmw {}", op))) };
                self.store(st, *ty, &new, a)?;
                done!(old)
            }
            I::CmpXchg { ty, p, c, n } => {
                let a = self.addr(st, p)?;
                let w = self.width(*ty);
                let old = self.load(st, *ty, a)?;
                let (c, n) = (self.get(st, c), self.get(st, n));
                let q = self.cmpv(ir::P::Eq, w, &old, &c);
                let q = match q { V::C(k) => k == 1, V::S(e) => self.decide(st, e)?, _ => panic!() };
                if q { self.store(st, *ty, &n, a)?; }
                done!(V::A(vec![old, V::C(q as u128)].into()))
            }
            I::Br(t) => self.jump(st, *t),
            I::CondBr(c, t, f) => {
                let c = match self.get(st, c) { V::C(k) => k == 1, V::S(e) => self.decide(st, e)?, _ => panic!() };
                self.jump(st, if c { *t } else { *f });
            }
            I::Switch { v, w, default, cases } => {
                let t = match self.get(st, v) {
                    V::C(k) => cases.iter().find(|c| c.0 == k).map_or(*default, |c| c.1),
                    V::S(e) => {
                        // one condition per target; the one the current model takes is tried first
                        let mut conds: Vec<(u32, E)> = vec![];
                        for (k, b) in cases {
                            if *b == *default { continue; }
                            let kk = self.ar.k(*k, *w);
                            let c = self.ar.eq(e, kk);
                            match conds.iter_mut().find(|x| x.0 == *b) { Some(x) => x.1 = self.ar.or(x.1, c), None => conds.push((*b, c)) }
                        }
                        let mut pick = None;
                        let mut open = vec![];
                        for &(b, c) in &conds {
                            match self.ar.is_k(c).map(|k| k == 1).or_else(|| self.known(st, c)) { Some(true) => { pick = Some(b); break; } Some(false) => {} None => open.push((b, c)) }
                        }
                        if pick.is_none() {
                            for (b, c) in open { if self.decide(st, c)? { pick = Some(b); break; } }
                        }
                        pick.unwrap_or(*default)
                    }
                    _ => panic!(),
                };
                self.jump(st, t);
            }
            I::Ret(v) => { let v = v.as_ref().map(|o| self.get(st, o)); self.ret(st, v)?; }
            I::Unreachable => return viol("undefined-behaviour", "unreachable code reached".into()),
            I::Unsupported(s) => return Err(Stop::Incomplete(format!("instruction {}", s))),
            I::Call { callee, args, ret, normal } => {
                let fi = match callee {
                    Callee::Fn(f) => *f,
                    Callee::Asm(s) => { if s.trim().is_empty() { next!(); if let Some(n) = normal { self.jump(st, *n); } return Ok(()); } return Err(Stop::Incomplete(format!("asm {}", s))); }
                    Callee::Ptr(o) => {
                        let a = self.addr(st, o)?;
                        match addr_fn(a) { Some(f) if (f as usize) < m.funcs.len() => f, _ => return viol("memory", format!("call of an invalid function pointer {:#x}", a)) }
                    }
                };
                let func = &m.funcs[fi as usize];
                let mut av = Vec::with_capacity(args.len());
                for o in args { av.push(self.get(st, o)); }
                if func.intr == Intr::None {
                    Rc::make_mut(st.frames.last_mut().unwrap()).ip = ip + 1;
                    return self.push(st, fi, av, inst.dst, *normal);
                }
                let v = self.builtin(st, func, &av, *ret)?;
                done!(v);
                if let Some(n) = normal { self.jump(st, *n); }
            }
        }
        Ok(())
    }

    fn where_(&self, st: &State) -> String {
        for f in st.frames.iter().rev() {
            let blk = &self.sh.m.funcs[f.func as usize].blocks[f.block as usize];
            for k in (0..=f.ip as usize).rev() { if let Some(i) = blk.insts.get(k) { if i.loc != 0 { let (p, l) = &self.sh.m.locs[i.loc as usize]; return format!("{}:{}", p, l); } } }
        }
        "?".into()
    }

    fn builtin(&mut self, st: &mut State, f: &'a Func, a: &[V], ret: TId) -> Res<V> {
        use Intr::*;
        let m: &'a Module = &self.sh.m;
        let w1 = |x: bool| V::C(x as u128);
        macro_rules! c { ($i:expr) => { self.cv(st, &a[$i])? as u64 } }
        macro_rules! tag { ($i:expr, $j:expr) => {{ let p = c!($i); let n = c!($j) as usize; self.cstr(st, p, n)? }} }
        macro_rules! mem { ($e:expr) => {{ let r = $e; self.memerr(r)? }} }
        Ok(match f.intr {
            None => unreachable!(),
            Unknown => return Err(Stop::Incomplete(format!("function {}", f.name))),
            Nop => V::C(0), Zero => V::C(0), Ident => a[0].clone(),
            Assume => V::C(0),
            Memcpy | Memmove => {
                let n = c!(2) as usize;
                let (d, s) = (c!(0), c!(1));
                if n > 0 {
                    let b = match mem!(st.mem.read(m, s, n)) { View::B(b) => Ok(b.to_vec()), View::S(b, _) => Err(b.to_vec()) };
                    match b { Ok(b) => mem!(st.mem.write(m, d, &b)), Err(b) => mem!(st.mem.write_sym(m, d, &b)) }
                }
                V::C(d as u128)
            }
            Memset => {
                let n = c!(2) as usize;
                let d = c!(0);
                if n > 0 {
                    match &a[1] {
                        V::C(x) => { let b = vec![*x as u8; n]; mem!(st.mem.write(m, d, &b)) }
                        V::S(e) => { let x = self.ar.extract(*e, 0, 8); let y = self.ar.byte(x, 0); let b = vec![y; n]; mem!(st.mem.write_sym(m, d, &b)) }
                        _ => panic!(),
                    }
                }
                V::C(d as u128)
            }
            Trap => return viol("abort", format!("abort at {}", self.where_(st))),
            Bswap(w) => match &a[0] { V::C(x) => { let b = x.to_le_bytes(); let mut r = 0u128; for i in 0..(w / 8) as usize { r = r << 8 | b[i] as u128; } V::C(r) }
                V::S(e) => { let parts: Vec<E> = (0..w / 8).map(|i| self.ar.extract(*e, 8 * i, 8)).collect(); let r = self.ar.concat(&parts); self.v(r) } _ => panic!() },
            BitRev(w) => { let x = self.cv(st, &a[0])?; V::C(x.reverse_bits() >> (128 - w)) }
            Ctlz(w) => match &a[0] { V::C(x) => V::C((x.leading_zeros() - (128 - w)) as u128), V::S(e) => {
                let mut r = self.ar.k(w as u128, w);
                for i in 0..w { let b = self.ar.extract(*e, i, 1); let k = self.ar.k((w - 1 - i) as u128, w); r = self.ar.ite(b, k, r); }
                self.v(r) } _ => panic!() },
            Cttz(w) => match &a[0] { V::C(x) => V::C(if *x == 0 { w as u128 } else { x.trailing_zeros() as u128 }), V::S(e) => {
                let mut r = self.ar.k(w as u128, w);
                for i in (0..w).rev() { let b = self.ar.extract(*e, i, 1); let k = self.ar.k(i as u128, w); r = self.ar.ite(b, k, r); }
                self.v(r) } _ => panic!() },
            Ctpop(w) => match &a[0] { V::C(x) => V::C(x.count_ones() as u128), V::S(e) => {
                let mut r = self.ar.k(0, w);
                for i in 0..w { let b = self.ar.extract(*e, i, 1); let z = self.ar.zext(b, w); r = self.ar.bin(B::Add, r, z); }
                self.v(r) } _ => panic!() },
            Fshl(w) | Fshr(w) => {
                let s = (self.cv(st, &a[2])? % w as u128) as u32;
                let left = matches!(f.intr, Fshl(_));
                if s == 0 { return Ok(if left { a[0].clone() } else { a[1].clone() }); }
                let (hi, lo) = (self.e(&a[0], w), self.e(&a[1], w));
                // the w bits of hi:lo shifted
                let k = if left { w - s } else { s };
                let p = self.ar.extract(hi, 0, k);
                let q = self.ar.extract(lo, k, w - k);
                let r = self.ar.concat(&[p, q]);
                self.v(r)
            }
            UMax(w) | UMin(w) | SMax(w) | SMin(w) => {
                let p = match f.intr { UMax(_) => ir::P::Ugt, UMin(_) => ir::P::Ult, SMax(_) => ir::P::Sgt, _ => ir::P::Slt };
                let q = self.cmpv(p, w, &a[0], &a[1]);
                match q { V::C(1) => a[0].clone(), V::C(_) => a[1].clone(), V::S(e) => { let (x, y) = (self.e(&a[0], w), self.e(&a[1], w)); let r = self.ar.ite(e, x, y); self.v(r) } _ => panic!() }
            }
            USubSat(w) => { let q = self.cmpv(ir::P::Ult, w, &a[0], &a[1]); let d = self.binv(B::Sub, w, &a[0], &a[1]); self.ite_v(q, V::C(0), d, w) }
            UAddSat(w) => { let s = self.binv(B::Add, w, &a[0], &a[1]); let q = self.cmpv(ir::P::Ult, w, &s, &a[0]); self.ite_v(q, V::C(mask(w)), s, w) }
            FAbs(w) => self.binv(B::And, w, &a[0], &V::C(mask(w) >> 1)),
            FUn(k, w) => {
                let x = ffrom(w, self.cv(st, &a[0])?);
                V::C(fbits(w, match k { ir::FU::Floor => x.floor(), ir::FU::Ceil => x.ceil(), ir::FU::Trunc => x.trunc(), ir::FU::Round => x.round(), ir::FU::RoundEven => x.round_ties_even(), ir::FU::Sqrt => x.sqrt(), ir::FU::Log2 => x.log2(), ir::FU::Ln => x.ln(), ir::FU::Log10 => x.log10(), ir::FU::Exp => x.exp(), ir::FU::Exp2 => x.exp2() }))
            }
            FPow(w) => { let (x, y) = (ffrom(w, self.cv(st, &a[0])?), ffrom(w, self.cv(st, &a[1])?)); V::C(fbits(w, x.powf(y))) }
            FToSat(signed, tw, fw) => {
                let x = ffrom(fw, self.cv(st, &a[0])?);
                if tw > 64 { return Err(Stop::Incomplete(format!("intrinsic {}", f.name))); }
                V::C(if signed { let h = 1i128 << (tw - 1); (x as i128).clamp(-h, h - 1) as u128 & mask(tw) } else { (x as u128).min(mask(tw)) })
            }
            Abs(w) => { let n = self.binv(B::Sub, w, &V::C(0), &a[0]); let q = self.cmpv(ir::P::Slt, w, &a[0], &V::C(0)); self.ite_v(q, n, a[0].clone(), w) }
            UCmp(rw, w) | SCmp(rw, w) => {
                let lt = self.cmpv(if matches!(f.intr, UCmp(..)) { ir::P::Ult } else { ir::P::Slt }, w, &a[0], &a[1]);
                let eq = self.cmpv(ir::P::Eq, w, &a[0], &a[1]);
                let r = self.ite_v(lt, V::C(mask(rw)), V::C(1), rw);
                self.ite_v(eq, V::C(0), r, rw)
            }
            SSubSat(w) | SAddSat(w) => {
                // overflow shows in the signs
                let add = matches!(f.intr, SAddSat(_));
                let r = self.binv(if add { B::Add } else { B::Sub }, w, &a[0], &a[1]);
                let x = self.cmpv(ir::P::Slt, w, &a[0], &V::C(0));
                let y = self.cmpv(ir::P::Slt, w, &a[1], &V::C(0));
                let z = self.cmpv(ir::P::Slt, w, &r, &V::C(0));
                let xy = self.binv(B::Xor, 1, &x, &y);
                let xy = if add { self.binv(B::Xor, 1, &xy, &V::C(1)) } else { xy };
                let xz = self.binv(B::Xor, 1, &x, &z);
                let o = self.binv(B::And, 1, &xy, &xz);
                let end = self.ite_v(x, V::C(1 << (w - 1)), V::C(mask(w) >> 1), w);
                self.ite_v(o, end, r, w)
            }
            UAddO(w) => { let s = self.binv(B::Add, w, &a[0], &a[1]); let o = self.cmpv(ir::P::Ult, w, &s, &a[0]); V::A(vec![s, o].into()) }
            USubO(w) => { let s = self.binv(B::Sub, w, &a[0], &a[1]); let o = self.cmpv(ir::P::Ult, w, &a[0], &a[1]); V::A(vec![s, o].into()) }
            UMulO(w) | SMulO(w) | SAddO(w) | SSubO(w) => {
                let signed = !matches!(f.intr, UMulO(_));
                let op = match f.intr { SAddO(_) => B::Add, SSubO(_) => B::Sub, _ => B::Mul };
                let r = self.binv(op, w, &a[0], &a[1]);
                if let (V::C(x), V::C(y)) = (&a[0], &a[1]) {
                    let o = if signed {
                        let (x, y) = (sx(*x, w), sx(*y, w));
                        let t = match op { B::Add => x.checked_add(y), B::Sub => x.checked_sub(y), _ => x.checked_mul(y) };
                        t.map_or(true, |t| sx(t as u128 & mask(w), w) != t)
                    } else { x.checked_mul(*y).map_or(true, |t| t > mask(w)) };
                    return Ok(V::A(vec![r, w1(o)].into()));
                }
                if w > 64 { return Err(Stop::Incomplete("wide overflow arithmetic".into())); }
                let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                let ext = |s: &mut Self, e: E| if signed { s.ar.sext(e, 2 * w) } else { s.ar.zext(e, 2 * w) };
                let (x, y) = (ext(self, x), ext(self, y));
                let p = self.ar.bin(op, x, y);
                let re = self.e(&r, w);
                let rr = ext(self, re);
                let q = self.ar.eq(p, rr);
                let q = self.ar.not(q);
                let q = self.v(q);
                V::A(vec![r, q].into())
            }
            PtrMask => self.binv(B::And, 64, &a[0], &a[1]),
            VReduce(k, w) => {
                let V::A(l) = &a[0] else { return Ok(V::C(0)) };
                let mut r = l[0].clone();
                for x in l[1..].iter() {
                    r = match k { VR::Add => self.binv(B::Add, w, &r, x), VR::And => self.binv(B::And, w, &r, x), VR::Or => self.binv(B::Or, w, &r, x), VR::Xor => self.binv(B::Xor, w, &r, x),
                        VR::UMax => { let q = self.cmpv(ir::P::Ugt, w, &r, x); self.ite_v(q, r.clone(), x.clone(), w) } VR::UMin => { let q = self.cmpv(ir::P::Ult, w, &r, x); self.ite_v(q, r.clone(), x.clone(), w) } };
                }
                r
            }
            Malloc | RAlloc => { let n = c!(0) as usize; self.big(n)?; V::C(st.mem.alloc(m, n, true) as u128) }
            RAllocZeroed | Calloc => { let n = if f.intr == Calloc { c!(0) * c!(1) } else { c!(0) } as usize; self.big(n)?; let fill = std::mem::take(&mut st.mem.fill); let p = st.mem.alloc(m, n, true); st.mem.fill = fill; V::C(p as u128) }
            AlignedAlloc => { let n = c!(1) as usize; self.big(n)?; V::C(st.mem.alloc(m, n, true) as u128) }
            PosixMemalign => { let (p, n) = (c!(0), c!(2) as usize); self.big(n)?; let x = st.mem.alloc(m, n, true); mem!(st.mem.write(m, p, &x.to_le_bytes())); V::C(0) }
            Free => { let p = c!(0); if p != 0 { mem!(st.mem.free(m, p, true)); } V::C(0) }
            RDealloc => { let p = c!(0); let n = c!(1) as usize; let sz = mem!(st.mem.size(m, p)); if sz != n { return viol("memory", format!("deallocation with size {} of a block of size {}", n, sz)); } mem!(st.mem.free(m, p, true)); V::C(0) }
            Realloc | RRealloc => {
                let p = c!(0);
                let n = if f.intr == Realloc { c!(1) } else { c!(3) } as usize;
                self.big(n)?;
                if p == 0 { return Ok(V::C(st.mem.alloc(m, n, true) as u128)); }
                let old = mem!(st.mem.size(m, p));
                let k = old.min(n);
                let b = if k > 0 { mem!(st.mem.bytes(m, p, k)) } else { vec![] };
                mem!(st.mem.free(m, p, true));
                let q = st.mem.alloc(m, n, true);
                if k > 0 { mem!(st.mem.write_sym(m, q, &b)); }
                V::C(q as u128)
            }
            Memcmp | Bcmp => {
                let n = c!(2) as usize;
                if n == 0 { return Ok(V::C(0)); }
                let (p, q) = (c!(0), c!(1));
                let (x, y) = (mem!(st.mem.bytes(m, p, n)), mem!(st.mem.bytes(m, q, n)));
                if f.intr == Bcmp {
                    let e = self.ar.eq_bytes(&x, &y);
                    let e = self.ar.not(e);
                    let r = self.ar.zext(e, 32);
                    return Ok(self.v(r));
                }
                // skip the equal front
                let s = (0..n).find(|&i| x[i] != y[i]);
                let Some(s) = s else { return Ok(V::C(0)) };
                if let (Some(p), Some(q)) = (x[s].konst(), y[s].konst()) { return Ok(V::C(if p < q { mask(32) } else { 1 })); }
                let eq = self.ar.eq_bytes(&x[s..], &y[s..]);
                let be = |w: &mut Self, b: &[By]| { let v: Vec<E> = b.iter().map(|b| w.ar.from_byte(*b)).collect(); w.ar.concat(&v) };
                let (bx, by) = (be(self, &x[s..]), be(self, &y[s..]));
                let lt = self.ult_wide(bx, by);
                let (k1, k2, k0) = (self.ar.k(mask(32), 32), self.ar.k(1, 32), self.ar.k(0, 32));
                let r = self.ar.ite(lt, k1, k2);
                let r = self.ar.ite(eq, k0, r);
                self.v(r)
            }
            Strlen => { let p = c!(0); let mut n = 0u64; loop { let b = mem!(st.mem.bytes(m, p + n, 1)); match b[0].konst() { Some(0) => break, Some(_) => n += 1, _ => return Err(Stop::Incomplete("strlen of symbolic bytes".into())) } } V::C(n as u128) }
            // a clock that goes on by a second and a bit each time it is read
            ClockGettime => { let p = c!(1); st.clock += 1; let mut b = (1_700_000_000 + st.clock).to_le_bytes().to_vec(); b.extend((st.clock * 1_000_003 % 1_000_000_000).to_le_bytes()); mem!(st.mem.write(m, p, &b)); V::C(0) }
            Write => V::C(c!(2) as u128),
            GetRandom => { let (p, n) = (c!(0), c!(1)); let b: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(37) ^ 0x5a).collect(); mem!(st.mem.write(m, p, &b)); V::C(n as u128) }
            Panic(k) => {
                if st.expect_panic { st.panicked = true; self.stats[st.run].panics_expected += 1; return Err(Stop::Done); }
                let mut loc = String::new();
                if k == PK::Fmt {
                    if let Some(V::C(l)) = a.last() {
                        // core::panic::Location { ptr, len, line, col }
                        if let Ok(View::B(b)) = st.mem.read(m, *l as u64, 24) {
                            let (p, n, line) = (u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..16].try_into().unwrap()), u32::from_le_bytes(b[16..20].try_into().unwrap()));
                            let s = self.cstr(st, p, n as usize).unwrap_or_default();
                            loc = format!("{}:{}", s.rsplit('/').next().unwrap_or(""), line);
                        }
                    }
                }
                return viol("panic", format!("panic at {} (in {})", loc, self.where_(st)));
            }
            SvInt => { let w = c!(0) as u32; let id = st.vars.len() as u32; st.vars.push((id, w)); st.inputs.push(Input::Int(id, w)); let e = self.ar.var(id, w); let r = self.ar.zext(e, 64); V::S(r) }
            SvBytes => {
                let (p, n) = (c!(0), c!(1) as usize);
                let mut ids = vec![];
                let mut b = vec![];
                for _ in 0..n { let id = st.vars.len() as u32; st.vars.push((id, 8)); ids.push(id); let e = self.ar.var(id, 8); b.push(By { e, i: 0 }); }
                st.inputs.push(Input::Bytes(ids));
                if n > 0 { mem!(st.mem.write_sym(m, p, &b)); }
                V::C(0)
            }
            SvChoice => {
                let n = c!(0) as u32;
                if n == 0 { return Err(Stop::Kill); }
                let k = if n == 1 { 0 } else if let Some(k) = st.choice.take() { k } else {
                    match Self::next_replay(st)? {
                        Some(D::Choice(k)) => k,
                        Some(_) => return Err(Stop::Incomplete("replayed path diverged (choice)".into())),
                        Option::None => { self.end_replay(st)?; return Err(Stop::Choose(n)); }
                    }
                };
                st.inputs.push(Input::Choice(n, k));
                V::C(k as u128)
            }
            SvParam => { let n = tag!(0, 1); match self.sh.runs[st.run].params.get(&n) { Some(v) => V::C(*v as u128), Option::None => return Err(Stop::Incomplete(format!("parameter {} missing", n))) } }
            SvAssume => {
                let c = self.e(&a[0], self.arg_width(&a[0]));
                let c = self.ar.extract(c, 0, 1);
                if let Some(k) = self.ar.is_k(c) { return if k == 1 { Ok(V::C(0)) } else { Err(Stop::Kill) }; }
                match self.known(st, c) { Some(true) => return Ok(V::C(0)), Some(false) => return Err(Stop::Kill), _ => {} }
                let replaying = st.replay.as_ref().map_or(false, |(l, i)| *i < l.len());
                if !replaying {
                    self.end_replay(st)?;
                    if self.eval(st, c) != 1 { match self.query(st, Some(c))? { Some(md) => st.model = Some(md), Option::None => return Err(Stop::Kill) } }
                }
                st.pc.push(c);
                self.learn(st, c, true);
                V::C(0)
            }
            SvAssert => {
                let tag = tag!(1, 2);
                self.assert(st, &a[0], &tag)?;
                V::C(0)
            }
            SvFail => { let tag = tag!(0, 1); return viol(&tag, format!("reached at {}", self.where_(st))); }
            SvCover => { let tag = tag!(0, 1); *self.stats[st.run].covers.entry(tag).or_default() += 1; V::C(0) }
            SvObserve => { st.obs.push(Obs::Int(a[0].clone())); V::C(0) }
            SvObserveBytes => { let (p, n) = (c!(0), c!(1) as usize); let b = self.bytes(st, p, n)?; st.obs.push(Obs::Bytes(b.into())); V::C(0) }
            SvSha => { let (p, n, o) = (c!(0), c!(1) as usize, c!(2)); let b = self.bytes(st, p, n)?; let e = self.ar.sha(b.into());
                if let Some(d) = self.ar.sha_const(e) { mem!(st.mem.write(m, o, &d)); } else { let b: Vec<By> = (0..32).map(|i| By { e, i }).collect(); mem!(st.mem.write_sym(m, o, &b)); } V::C(0) }
            SvLive => V::C(st.mem.live as u128),
            SvMemory => { st.mem.reuse = c!(0) != 0; st.mem.fill = c!(1) as u8; V::C(0) }
            SvExpectPanic => { st.expect_panic = c!(0) != 0; V::C(0) }
            SvConc => { let v = self.cv(st, &a[0])?; V::C(v) }
            SvEqBytes => { let (p, q, n) = (c!(0), c!(1), c!(2) as usize); let (x, y) = (self.bytes(st, p, n)?, self.bytes(st, q, n)?); let e = self.ar.eq_bytes(&x, &y); let w = self.width(ret).max(1); let e = self.ar.zext(e, w); self.v(e) }
            SvIsSym => w1(matches!(a[0], V::S(_))),
        })
    }
    fn big(&self, n: usize) -> Res<()> { if n > 1 << 28 { return viol("memory", format!("allocation of {} bytes", n)); } Ok(()) }
    fn arg_width(&self, v: &V) -> u32 { match v { V::S(e) => self.ar.w(*e), _ => 1 } }
    fn ite_v(&mut self, q: V, x: V, y: V, w: u32) -> V { match q { V::C(1) => x, V::C(_) => y, V::S(e) => { let (x, y) = (self.e(&x, w), self.e(&y, w)); let r = self.ar.ite(e, x, y); self.v(r) } _ => panic!() } }
    /// Comparison of floating-point numbers, on their bits. The predicate's bits are: equal, greater, less, unordered.
    fn fcmpv(&mut self, p: u32, w: u32, x: &V, y: &V) -> V {
        let (top, low) = (V::C(1 << (w - 1)), V::C(mask(w) >> 1));
        let inf = V::C(if w == 32 { 0x7f80_0000 } else { 0x7ff0_0000_0000_0000 });
        let (ax, ay) = (self.binv(B::And, w, x, &low), self.binv(B::And, w, y, &low));
        let (nx, ny) = (self.cmpv(ir::P::Ugt, w, &ax, &inf), self.cmpv(ir::P::Ugt, w, &ay, &inf));
        let nan = self.binv(B::Or, 1, &nx, &ny);
        let any = self.binv(B::Or, w, &ax, &ay);
        let zeros = self.cmpv(ir::P::Eq, w, &any, &V::C(0));
        let bits = self.cmpv(ir::P::Eq, w, x, y);
        let eq = self.binv(B::Or, 1, &zeros, &bits);
        // in two's complement the order of the numbers is that of the signed ones, once negative ones are mirrored
        let mut key = |s: &mut Self, v: &V, a: &V| { let neg = s.cmpv(ir::P::Uge, w, v, &top); let m = s.binv(B::Sub, w, &V::C(0), a); s.ite_v(neg, m, a.clone(), w) };
        let (kx, ky) = (key(self, x, &ax), key(self, y, &ay));
        let (gt, lt) = (self.cmpv(ir::P::Sgt, w, &kx, &ky), self.cmpv(ir::P::Slt, w, &kx, &ky));
        let mut r = V::C(0);
        for (b, c) in [(1, eq), (2, gt), (4, lt)] { if p & b != 0 { r = self.binv(B::Or, 1, &r, &c) } }
        let ord = self.binv(B::Xor, 1, &nan, &V::C(1));
        let r = self.binv(B::And, 1, &r, &ord);
        if p & 8 != 0 { self.binv(B::Or, 1, &r, &nan) } else { r }
    }
    fn ult_wide(&mut self, a: E, b: E) -> E { self.ar.ult(a, b) }

    fn assert(&mut self, st: &mut State, a: &V, tag: &str) -> Res<()> {
        let w = self.arg_width(a);
        let c = self.e(a, w);
        let c = self.ar.extract(c, 0, 1);
        let s = &mut self.stats[st.run];
        let replaying = st.replay.as_ref().map_or(false, |(l, i)| *i < l.len());
        if !replaying { s.asserts += 1; *s.tags.entry(tag.to_string()).or_default() += 1; }
        if let Some(k) = self.ar.is_k(c) { if !replaying { s.asserts_rewritten += 1; } return if k == 1 { Ok(()) } else { viol(tag, format!("assertion failed at {}", self.where_(st))) }; }
        if let Some(k) = self.known(st, c) { if !replaying { self.stats[st.run].asserts_by_facts += 1; } return if k { Ok(()) } else { viol(tag, format!("assertion failed at {}", self.where_(st))) }; }
        if replaying { st.pc.push(c); self.learn(st, c, true); return Ok(()); }
        self.end_replay(st)?;
        self.stats[st.run].asserts_by_solver += 1;
        let nc = self.ar.not(c);
        let bad = if self.eval(st, c) == 0 { st.model.clone() } else { self.query(st, Some(nc))? };
        if let Some(bad) = bad {
            let msg = format!("assertion failed at {}", self.where_(st));
            self.report(st, &bad, tag, &msg);
            // go on with the inputs on which it holds
            match self.query(st, Some(c))? { Some(m) => st.model = Some(m), None => return Err(Stop::Kill) }
        }
        st.pc.push(c);
        self.learn(st, c, true);
        Ok(())
    }

    // ---------- results ----------
    fn inputs_text(&self, st: &State, m: &[u128]) -> String {
        let g = |i: u32| m.get(i as usize).copied().unwrap_or(0);
        let mut s = String::new();
        for i in &st.inputs {
            match i {
                Input::Int(id, w) => s.push_str(&format!("i{}:{};", w, g(*id))),
                Input::Bytes(v) => { s.push_str(&format!("b{}:", v.len())); for id in v { s.push_str(&format!("{:02x}", g(*id))); } s.push(';'); }
                Input::Choice(n, k) => s.push_str(&format!("c{}:{};", n, k)),
            }
        }
        s
    }
    fn report(&mut self, st: &State, model: &Rc<Vec<u128>>, tag: &str, msg: &str) {
        if !self.sh.cfg.known.iter().any(|k| k == tag) { self.sh.viol_count[st.run].fetch_add(1, Relaxed); }
        let inputs = self.inputs_text(st, model);
        let same = self.reported.entry((st.run, tag.to_string(), msg.to_string())).or_default();
        *same += 1;
        if *same <= 3 { self.viol.push(Violation { run: st.run, tag: tag.into(), msg: msg.into(), inputs, insts: st.icount }); }
    }
    fn finish(&mut self, st: &mut State) -> Res<()> {
        self.end_replay(st)?;
        let s = &mut self.stats[st.run];
        s.paths += 1;
        s.max_path_insts = s.max_path_insts.max(st.icount);
        s.max_pc = s.max_pc.max(st.pc.len() as u64);
        s.inputs_bits = s.inputs_bits.max(st.vars.iter().map(|v| v.1 as u64).sum());
        let mut h = Fx::default();
        use std::hash::Hasher;
        h.write_u64(self.sh.cfg.seed);
        for (ic, d) in &st.log { h.write_u64(*ic); match d { D::Side(b) => h.write_u64(*b as u64), D::Val(_, b) => h.write_u64(2 + *b as u64), D::Choice(k) => h.write_u64(8 + *k as u64) } }
        h.write_u64(0x9e3779b97f4a7c15);
        let prio = h.finish();
        let k = self.sh.cfg.samples;
        if self.samples[st.run].len() < k || self.samples[st.run].iter().any(|s| s.prio > prio) {
            let m = st.model.clone().unwrap();
            let inputs = self.inputs_text(st, &m);
            let mut memo: HashMap<E, Vec<u8>, BuildFx> = Default::default();
            let mut obs = String::new();
            for o in &st.obs {
                match o {
                    Obs::Int(V::C(c)) => obs.push_str(&format!("{};", *c as u64)),
                    Obs::Int(V::S(e)) => { let v = self.ar.eval(*e, &m, &mut memo); obs.push_str(&format!("{};", v as u64)); }
                    Obs::Int(_) => panic!(),
                    Obs::Bytes(b) => { for x in b.iter() { let v = if x.e == 0 { x.i as u8 } else { self.ar.eval_bytes(x.e, &m, &mut memo)[x.i as usize] }; obs.push_str(&format!("{:02x}", v)); } obs.push(';'); }
                }
            }
            let v = &mut self.samples[st.run];
            v.push(Sample { run: st.run, prio, inputs, obs, panicked: st.panicked });
            v.sort_by_key(|s| s.prio);
            v.truncate(k);
        }
        Ok(())
    }

    fn start(&mut self, job: &Job) -> Result<State, Stop> {
        let mut st = State { run: job.run, frames: vec![], mem: Mem::default(), pc: vec![], known: Default::default(), fixed: Default::default(), order: Default::default(), model: Some(Rc::new(vec![])), log: vec![], replay: if job.log.is_empty() { None } else { Some((Rc::new(job.log.clone()), 0)) }, inputs: vec![], vars: vec![], obs: vec![], expect_panic: false, clock: 0, icount: 0, choice: None, panicked: false };
        if !job.log.is_empty() { self.stats[job.run].replays += 1; }
        self.push(&mut st, self.sh.runs[job.run].func, vec![], u32::MAX, None)?;
        Ok(st)
    }
    fn incomplete(&mut self, run: usize, why: String) { *self.stats[run].incomplete.entry(why).or_default() += 1; }

    /// Explores everything below one job, handing work to idle threads.
    fn explore(&mut self, job: Job) {
        let run = job.run;
        let st = match self.start(&job) { Ok(s) => s, Err(_) => { self.incomplete(run, "start".into()); return; } };
        let mut work: VecDeque<State> = VecDeque::new();
        work.push_back(st);
        let began = std::time::Instant::now();
        let mut ticks = 0u32;
        while let Some(mut st) = work.pop_back() {
            if self.sh.viol_count[run].load(Relaxed) >= self.sh.cfg.max_viol as u64 { self.incomplete(run, "stopped after enough violations".into()); return; }
            loop {
                ticks = ticks.wrapping_add(1);
                if ticks % 1024 == 0 {
                    if ticks % 65536 == 0 || !self.viol.is_empty() { self.sync(run); }
                    if self.sh.stop.load(Relaxed) { self.incomplete(run, "time limit".into()); return; }
                    if self.sh.start.elapsed().as_secs_f64() > self.sh.cfg.time { self.sh.stop.store(true, Relaxed); self.sh.timed_out.store(true, Relaxed); self.sh.cv.notify_all(); self.incomplete(run, "time limit".into()); return; }
                    let others_wait = self.sh.unstarted.load(Relaxed) > 0 && began.elapsed().as_secs() >= 10;
                    if (self.ar.n.len() > 12_000_000 || others_wait) && st.replay.is_none() {
                        // too many terms, or other runs have not begun: hand everything back and start afresh
                        work.push_back(st);
                        for s in work { if s.replay.is_none() { self.donate(s); } else { let l = s.replay.unwrap().0; let mut q = self.sh.queue.lock().unwrap(); q.0.push_back(Job { run, log: (*l).clone() }); } }
                        return;
                    }
                    if !work.is_empty() && self.sh.idle.load(Relaxed) > self.sh.qlen.load(Relaxed) {
                        let give = work.pop_front().unwrap();
                        if give.replay.is_none() { self.donate(give); } else { work.push_front(give); }
                    }
                }
                self.stats[run].insts += 1;
                match self.step(&mut st) {
                    Ok(()) => {}
                    Err(Stop::Fork(c, e, this, that)) => {
                        self.stats[run].forks += 1;
                        st.icount -= 1;
                        let ic = st.icount + 1;
                        let mut o = st.clone();
                        o.model = self.pending_model.take();
                        for (s, d) in [(&mut st, this), (&mut o, that)] {
                            let b = match d { D::Side(b) => b, D::Val(v, b) => { if b { Rc::make_mut(&mut s.fixed).insert(e, v); } b } _ => unreachable!() };
                            s.log.push((ic, d));
                            let x = if b { c } else { self.ar.not(c) };
                            s.pc.push(x);
                            self.learn(s, c, b);
                        }
                        work.push_back(o);
                    }
                    Err(Stop::Choose(n)) => {
                        self.stats[run].forks += n as u64 - 1;
                        st.icount -= 1;
                        let ic = st.icount + 1;
                        for k in (0..n).rev() {
                            let mut o = st.clone();
                            o.choice = Some(k);
                            o.log.push((ic, D::Choice(k)));
                            work.push_back(o);
                        }
                        break;
                    }
                    Err(Stop::Done) => { if let Err(Stop::Incomplete(w)) = self.finish(&mut st) { self.incomplete(run, w); } break; }
                    Err(Stop::Kill) => { self.stats[run].pruned += 1; break; }
                    Err(Stop::Incomplete(w)) => { let l = self.where_(&st); self.incomplete(run, format!("{} (near {})", w, l)); break; }
                    Err(Stop::Viol(tag, msg)) => {
                        if st.replay.is_some() { if let Err(Stop::Incomplete(w)) = self.end_replay(&mut st) { self.incomplete(run, w); break; } }
                        let m = st.model.clone().unwrap();
                        self.report(&st, &m, &tag, &msg);
                        self.stats[run].paths += 1;
                        break;
                    }
                }
            }
        }
    }
    fn donate(&mut self, st: State) {
        let mut q = self.sh.queue.lock().unwrap();
        q.0.push_back(Job { run: st.run, log: st.log });
        self.sh.qlen.store(q.0.len(), Relaxed);
        self.sh.cv.notify_one();
    }
}

impl Job { pub fn first(run: usize) -> Job { Job { run, log: vec![] } } }
impl<'a> Worker<'a> {
    /// Books the solver's work to `run` and makes everything known so far visible to the watchdog.
    fn sync(&mut self, run: usize) {
        let v = &mut self.sv;
        let s = &mut self.stats[run];
        s.sat += std::mem::take(&mut v.sat); s.unsat += std::mem::take(&mut v.unsat); s.unknown += std::mem::take(&mut v.unknown); s.solver_time += std::mem::take(&mut v.time).as_secs_f64(); s.digest_terms += std::mem::take(&mut v.digest_terms);
        if self.synced.elapsed().as_secs() >= 2 || !self.viol.is_empty() { self.flush(); }
    }
    fn flush(&mut self) {
        self.synced = std::time::Instant::now();
        let mut out = self.sh.out.lock().unwrap();
        for (i, s) in self.stats.iter_mut().enumerate() { out.stats[i].merge(&std::mem::take(s)); }
        out.viol.append(&mut self.viol);
        for (i, v) in self.samples.iter_mut().enumerate() { if !v.is_empty() { out.samples[i].append(v); out.samples[i].sort_by_key(|s| s.prio); out.samples[i].truncate(self.sh.cfg.samples); } }
        for (i, c) in self.cov.iter().enumerate() { if *c { self.sh.cov[i].store(true, Relaxed); } }
        for (i, c) in self.fcov.iter().enumerate() { if *c { self.sh.fcov[i].store(true, Relaxed); } }
    }
    pub fn run(mut self) {
        loop {
            let job = {
                let mut q = self.sh.queue.lock().unwrap();
                loop {
                    if self.sh.stop.load(Relaxed) { break None; }
                    if let Some(j) = q.0.pop_front() { q.1 += 1; self.sh.qlen.store(q.0.len(), Relaxed); break Some(j); }
                    if q.1 == 0 { self.sh.cv.notify_all(); break None; }
                    self.sh.idle.fetch_add(1, Relaxed);
                    q = self.sh.cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
                    self.sh.idle.fetch_sub(1, Relaxed);
                }
            };
            let Some(job) = job else { break };
            let run = job.run;
            if !self.sh.started[run].swap(true, Relaxed) { self.sh.unstarted.fetch_sub(1, Relaxed); }
            self.explore(job);
            self.sync(run);
            if self.ar.n.len() > 3_000_000 { self.ar = Arena::new(); self.memo.clear(); self.memo_model = None; self.sv.reset(); }
            let mut q = self.sh.queue.lock().unwrap();
            q.1 -= 1;
            if q.1 == 0 && q.0.is_empty() { self.sh.cv.notify_all(); }
        }
        // jobs left behind at a stop
        let left: Vec<usize> = if self.sh.stop.load(Relaxed) { self.sh.queue.lock().unwrap().0.drain(..).map(|j| j.run).collect() } else { vec![] };
        for r in left { self.incomplete(r, "time limit".into()); }
        self.flush();
    }
}
