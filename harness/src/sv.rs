//! What a harness may ask for. Under the symbolic engine these are intrinsics; natively they replay one concrete run.
#![allow(dead_code)]

#[cfg(feature = "ir")]
mod imp {
    extern "C" {
        fn sv_int(bits: u32) -> u64;
        fn sv_bytes(p: *mut u8, n: usize);
        fn sv_choice(n: u32) -> u32;
        fn sv_param(p: *const u8, n: usize) -> u64;
        fn sv_assume(c: bool);
        fn sv_assert(c: bool, p: *const u8, n: usize);
        fn sv_fail(p: *const u8, n: usize) -> !;
        fn sv_cover(p: *const u8, n: usize);
        fn sv_observe(x: u64);
        fn sv_observe_bytes(p: *const u8, n: usize);
        fn sv_live_allocs() -> u64;
        fn sv_memory(reuse: u32, fill: u32);
        fn sv_expect_panic(x: u32);
        fn sv_concretize(x: u64) -> u64;
        fn sv_eq_bytes(p: *const u8, q: *const u8, n: usize) -> bool;
    }
    pub fn int(bits: u32) -> u64 { unsafe { sv_int(bits) } }
    pub fn fill(b: &mut [u8]) { unsafe { sv_bytes(b.as_mut_ptr(), b.len()) } }
    pub fn choice(n: usize) -> usize { unsafe { sv_choice(n as u32) as usize } }
    pub fn param(s: &str) -> usize { unsafe { sv_param(s.as_ptr(), s.len()) as usize } }
    pub fn assume(c: bool) { unsafe { sv_assume(c) } }
    pub fn check(c: bool, tag: &str) { unsafe { sv_assert(c, tag.as_ptr(), tag.len()) } }
    pub fn fail(tag: &str) -> ! { unsafe { sv_fail(tag.as_ptr(), tag.len()) } }
    pub fn cover(tag: &str) { unsafe { sv_cover(tag.as_ptr(), tag.len()) } }
    pub fn obs(x: u64) { unsafe { sv_observe(x) } }
    pub fn obs_bytes(b: &[u8]) { unsafe { sv_observe_bytes(b.as_ptr(), b.len()) } }
    pub fn live() -> u64 { unsafe { sv_live_allocs() } }
    pub fn memory(reuse: bool, fill: u8) { unsafe { sv_memory(reuse as u32, fill as u32) } }
    pub fn expect_panic(x: bool) { unsafe { sv_expect_panic(x as u32) } }
    pub fn conc(x: u64) -> u64 { unsafe { sv_concretize(x) } }
    pub fn eq(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && unsafe { sv_eq_bytes(a.as_ptr(), b.as_ptr(), a.len()) } }
}

#[cfg(not(feature = "ir"))]
#[allow(static_mut_refs)]
mod imp {
    use std::collections::VecDeque;
    pub enum In { Int(u32, u64), Bytes(Vec<u8>), Choice(usize, usize) }
    pub static mut INPUTS: VecDeque<In> = VecDeque::new();
    pub static mut PARAMS: Vec<(String, usize)> = Vec::new();
    pub static mut OBS: Vec<u8> = Vec::new();
    pub static mut EXPECT_PANIC: bool = false;
    pub fn finish(code: i32, line: &str) -> ! {
        use std::io::Write;
        let mut o = std::io::stdout();
        unsafe { let _ = write!(o, "OBS {}\n{}\n", String::from_utf8_lossy(&OBS), line); }
        let _ = o.flush();
        std::process::exit(code)
    }
    fn next() -> In { unsafe { match INPUTS.pop_front() { Some(x) => x, None => finish(12, "DESYNC inputs exhausted") } } }
    pub fn int(bits: u32) -> u64 { match next() { In::Int(w, v) if w == bits => v, _ => finish(12, "DESYNC int") } }
    pub fn fill(b: &mut [u8]) { match next() { In::Bytes(v) if v.len() == b.len() => { b.copy_from_slice(&v); std::mem::forget(v) } _ => finish(12, "DESYNC bytes") } }
    pub fn choice(n: usize) -> usize { match next() { In::Choice(m, k) if m == n => k, _ => finish(12, "DESYNC choice") } }
    pub fn param(s: &str) -> usize { unsafe { match PARAMS.iter().find(|p| p.0 == s) { Some(p) => p.1, None => finish(12, "DESYNC param") } } }
    pub fn assume(c: bool) { if !c { finish(13, "ASSUME") } }
    pub fn check(c: bool, tag: &str) { if !c { fail(tag) } }
    pub fn fail(tag: &str) -> ! { finish(10, &format!("FAIL {}", tag)) }
    pub fn cover(_: &str) {}
    fn push(b: &[u8]) { unsafe { assert!(OBS.len() + b.len() <= OBS.capacity()); OBS.extend_from_slice(b) } }
    pub fn obs(x: u64) {
        let mut b = [0u8; 20];
        let mut i = 20;
        let mut x = x;
        loop { i -= 1; b[i] = b'0' + (x % 10) as u8; x /= 10; if x == 0 { break } }
        push(&b[i..]);
        push(b";");
    }
    pub fn obs_bytes(b: &[u8]) {
        for x in b { let h = b"0123456789abcdef"; push(&[h[(x >> 4) as usize], h[(x & 15) as usize]]); }
        push(b";");
    }
    pub fn live() -> u64 { super::fence::live() }
    pub fn memory(reuse: bool, fill: u8) { super::fence::memory(reuse, fill) }
    pub fn expect_panic(x: bool) { unsafe { EXPECT_PANIC = x } }
    pub fn conc(x: u64) -> u64 { x }
    pub fn eq(a: &[u8], b: &[u8]) -> bool { a == b }
}

/// The engine's stand-ins for time and randomness, so that a replay sees the same.
#[cfg(not(feature = "ir"))]
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_: i32, t: *mut u64) -> i32 {
    static mut CLOCK: u64 = 0;
    CLOCK += 1;
    *t = 1_700_000_000 + CLOCK;
    *t.add(1) = CLOCK * 1_000_003 % 1_000_000_000;
    0
}

#[cfg(not(feature = "ir"))]
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _: u32) -> isize {
    for i in 0..n { *p.add(i) = (i as u8).wrapping_mul(37) ^ 0x5a }
    n as isize
}

/// An allocator that puts every block at the end of its own pages and never reuses them,
/// so that reads and writes outside a live block fault, and frees are checked.
#[cfg(not(feature = "ir"))]
#[allow(static_mut_refs)]
pub mod fence {
    use std::alloc::{GlobalAlloc, Layout};
    extern "C" {
        fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
        fn _exit(c: i32) -> !;
    }
    const REGION: usize = 1 << 37;
    const PAGE: usize = 4096;
    static mut BASE: usize = 0;
    static mut NEXT: usize = 0;
    static mut LIVE: u64 = 0;
    static mut REUSE: bool = false;
    static mut FILL: u8 = 0;
    static mut FREED: [(usize, usize, usize); 1 << 14] = [(0, 0, 0); 1 << 14];
    static mut N_FREED: usize = 0;
    /// Whether blocks given back are used again, last ones first, and what is in new ones.
    pub fn memory(reuse: bool, fill: u8) { unsafe { REUSE = reuse; FILL = fill } }
    pub fn live() -> u64 { unsafe { LIVE } }
    pub struct Fence;
    fn die(s: &str) -> ! { unsafe { write(1, s.as_ptr(), s.len()); _exit(14) } }
    fn span(l: &Layout) -> usize { (l.size().max(1) + l.align() + 2 * PAGE - 1) / PAGE * PAGE }
    unsafe impl GlobalAlloc for Fence {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if BASE == 0 {
                BASE = mmap(std::ptr::null_mut(), REGION, 0, 0x4022, -1, 0) as usize;
                if BASE == usize::MAX { die("FENCE no memory\n") }
                NEXT = BASE;
            }
            if REUSE {
                let mut i = N_FREED;
                while i > 0 {
                    i -= 1;
                    let (n, a, u) = FREED[i];
                    if n == l.size() && a == l.align() {
                        N_FREED -= 1;
                        while i < N_FREED { FREED[i] = FREED[i + 1]; i += 1 }
                        let s = span(&l);
                        let start = (u + n.max(1) + PAGE - 1) / PAGE * PAGE - s;
                        if mprotect(start as *mut u8, s, 3) != 0 { die("FENCE mprotect failed\n") }
                        *(start as *mut usize) = n ^ 0x5afe_0000_0000_0000;
                        std::ptr::write_bytes(u as *mut u8, FILL, n);
                        LIVE += 1;
                        return u as *mut u8;
                    }
                }
            }
            // first page of the span: header; the block ends at the end of the span; one unmapped page follows
            let s = span(&l);
            let p = NEXT;
            if p + s + PAGE > BASE + REGION { die("FENCE region exhausted\n") }
            NEXT += s + PAGE;
            if mprotect(p as *mut u8, s, 3) != 0 { die("FENCE mprotect failed\n") }
            let u = (p + s - l.size()) & !(l.align() - 1);
            *(p as *mut usize) = l.size() ^ 0x5afe_0000_0000_0000;
            if FILL != 0 { std::ptr::write_bytes(u as *mut u8, FILL, l.size()) }
            LIVE += 1;
            u as *mut u8
        }
        unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
            let s = span(&l);
            let q = q as usize;
            if q < BASE || q >= NEXT { die("FAIL memory free of a foreign pointer\n") }
            let p = (q + l.size().max(1) + PAGE - 1) / PAGE * PAGE;
            // the span ends at the first page boundary at or after the block's end
            let end = if l.size() == 0 { (q + PAGE - 1) / PAGE * PAGE } else { p };
            let start = end - s;
            // a block freed twice faults here: its pages are gone
            if *(start as *mut usize) != l.size() ^ 0x5afe_0000_0000_0000 { die("FAIL memory bad free\n") }
            if mprotect(start as *mut u8, s, 0) != 0 { die("FENCE mprotect failed\n") }
            if REUSE && l.size() > 0 && N_FREED < 1 << 14 { FREED[N_FREED] = (l.size(), l.align(), q); N_FREED += 1 }
            LIVE -= 1;
        }
    }
}

pub use imp::*;

pub fn u8() -> u8 { int(8) as u8 }
pub fn u16() -> u16 { int(16) as u16 }
pub fn u32() -> u32 { int(32) as u32 }
pub fn u64() -> u64 { int(64) }
pub fn bytes<const N: usize>() -> [u8; N] { let mut b = [0; N]; fill(&mut b); b }
pub fn vec(n: usize) -> Vec<u8> { let mut b = vec![0; n]; fill(&mut b); b }
