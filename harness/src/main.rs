//! Harnesses, compiled to LLVM IR for the symbolic engine and natively for replay.
#![allow(dead_code, unused_imports, clippy::all)]
#[macro_use]
mod sv;
#[macro_use]
mod model;
mod shapes;

macro_rules! parts { ($($m:ident $f:literal),* $(,)?) => {
    $( #[cfg(feature = $f)] mod $m; )*
    fn tables() -> Vec<&'static [(&'static str, fn())]> { let mut v: Vec<&'static [(&'static str, fn())]> = vec![]; $( #[cfg(feature = $f)] v.push($m::TABLE); )* v }
} }
parts! { wit "wit", map "map", store "store", tree "tree", values "values", group "group", codec "codec", twin "twin" }

#[cfg(not(feature = "ir"))]
#[global_allocator]
static A: sv::fence::Fence = sv::fence::Fence;

#[cfg(feature = "ir")]
fn main() {
    let n = std::env::args().next().unwrap();
    for t in tables() { for (h, f) in t { if *h == n { f() } } }
}

/// vh HARNESS PARAMS INPUTS
#[cfg(not(feature = "ir"))]
#[allow(static_mut_refs)]
fn main() {
    let mut a: Vec<String> = std::env::args().collect();
    if a.len() > 3 && a[3] == "-" { a[3].clear(); std::io::Read::read_to_string(&mut std::io::stdin(), &mut a[3]).unwrap(); }
    if a.len() < 4 { for t in tables() { for (h, _) in t { println!("{}", h) } } return; }
    unsafe {
        sv::OBS.reserve(1 << 22);
        for p in a[2].split(',').filter(|p| !p.is_empty()) { let (k, v) = p.split_once('=').unwrap(); sv::PARAMS.push((k.into(), v.parse().unwrap())); }
        for i in a[3].split(';').filter(|p| !p.is_empty()) {
            let (k, v) = i.split_once(':').unwrap();
            let n: usize = k[1..].parse().unwrap();
            sv::INPUTS.push_back(match &k[..1] {
                "i" => sv::In::Int(n as u32, v.parse::<u128>().unwrap() as u64),
                "b" => sv::In::Bytes((0..n).map(|j| u8::from_str_radix(&v[2 * j..2 * j + 2], 16).unwrap()).collect()),
                _ => sv::In::Choice(n, v.parse().unwrap()),
            });
        }
    }
    let f = tables().iter().flat_map(|t| t.iter()).find(|t| t.0 == a[1]).expect("no such harness").1;
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(f);
    unsafe {
        match r {
            Ok(()) => sv::finish(0, "OK"),
            Err(_) if sv::EXPECT_PANIC => sv::finish(0, "PANICKED"),
            Err(e) => { let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); sv::finish(11, &format!("FAIL panic {}", m)) }
        }
    }
}
