//! svengine: symbolic execution of rustc's LLVM IR with z3.
//!   svengine FILE.bc --out OUT.json [--threads N] [--time S] [--seed N] [--samples N] [--filter PATH/] --run HARNESS[:p=v,...] ...
mod exec;
mod expr;
mod ffi;
mod ir;
mod load;
mod mem;
mod sha;
mod solver;
use exec::*;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write;
use std::sync::atomic::Ordering::Relaxed;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}
fn jmap<'a>(m: impl Iterator<Item = (&'a String, &'a u64)>) -> String { format!("{{{}}}", m.map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")) }

fn main() {
    let mut a = std::env::args().skip(1);
    let bc = a.next().expect("bitcode file");
    let mut cfg = Cfg { threads: 8, time: 1e9, seed: 1, max_insts: 150_000_000, max_depth: 4000, samples: 3, solver_ms: 60_000, max_viol: 12, trace: false, known: vec![] };
    let (mut out, mut filter) = (String::new(), String::from("/repo/"));
    let mut specs = vec![];
    while let Some(x) = a.next() {
        let mut v = || a.next().expect("value");
        match x.as_str() {
            "--out" => out = v(), "--filter" => filter = v(), "--threads" => cfg.threads = v().parse().unwrap(), "--time" => cfg.time = v().parse().unwrap(), "--seed" => cfg.seed = v().parse().unwrap(),
            "--samples" => cfg.samples = v().parse().unwrap(), "--max-insts" => cfg.max_insts = v().parse().unwrap(), "--known" => cfg.known.push(v()), "--max-viol" => cfg.max_viol = v().parse().unwrap(), "--run" => specs.push(v()),
            "--runs-file" => specs.extend(std::fs::read_to_string(v()).unwrap().lines().map(|s| s.to_string())),
            _ => panic!("unknown option {}", x),
        }
    }
    assert!(ffi::runtime());
    let t0 = std::time::Instant::now();
    let m = std::thread::Builder::new().stack_size(1 << 28).spawn(move || load::load(&bc, &filter)).unwrap().join().expect("load");
    let load_time = t0.elapsed().as_secs_f64();
    let mut runs = vec![];
    for s in &specs {
        let (h, p) = s.split_once(':').unwrap_or((s, ""));
        let Some(&func) = m.fn_by_name.get(h) else { eprintln!("no harness {}", h); std::process::exit(3) };
        let params: HashMap<String, u64> = p.split(',').filter(|x| !x.is_empty()).map(|x| { let (k, v) = x.split_once('=').expect("p=v"); (k.to_string(), v.parse().expect("number")) }).collect();
        let max_insts = params.get("minsts").map_or(cfg.max_insts, |m| m * 1_000_000);
        runs.push(Run { label: s.clone(), func, params, max_insts });
    }
    let n = runs.len();
    let nl = m.locs.len();
    let nf = m.funcs.len();
    let sh = Shared {
        m, runs, queue: Default::default(), cv: Default::default(), idle: Default::default(), stop: Default::default(), qlen: Default::default(),
        out: std::sync::Mutex::new(Out { stats: vec![Default::default(); n], viol: vec![], samples: vec![vec![]; n] }),
        cov: (0..nl).map(|_| Default::default()).collect(), fcov: (0..nf).map(|_| Default::default()).collect(), viol_count: (0..n).map(|_| Default::default()).collect(), start: std::time::Instant::now(), timed_out: Default::default(), unstarted: std::sync::atomic::AtomicUsize::new(n), started: (0..n).map(|_| Default::default()).collect(), cfg,
    };
    sh.queue.lock().unwrap().0 = (0..n).map(Job::first).collect::<VecDeque<_>>();
    sh.qlen.store(n, Relaxed);
    let done = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        // a query or a step that outlasts the time limit does not hold up the answer
        let (sh, done, out) = (&sh, &done, &out);
        s.spawn(move || while !done.load(Relaxed) {
            std::thread::sleep(std::time::Duration::from_millis(20));
            let t = sh.start.elapsed().as_secs_f64();
            if t > sh.cfg.time { sh.stop.store(true, Relaxed); sh.timed_out.store(true, Relaxed); }
            if t > sh.cfg.time + 15.0 { write(sh, out, load_time); std::process::exit(0); }
        });
        std::thread::scope(|s| {
            for _ in 0..sh.cfg.threads { std::thread::Builder::new().stack_size(1 << 29).spawn_scoped(s, move || Worker::new(sh).run()).unwrap(); }
        });
        done.store(true, Relaxed);
    });
    write(&sh, &out, load_time);
    // states of a stopped run are not worth tearing down
    std::process::exit(0);
}

fn write(sh: &Shared, out: &str, load_time: f64) {
    let (n, nf) = (sh.runs.len(), sh.m.funcs.len());
    let insts: usize = sh.m.funcs.iter().map(|f| f.blocks.iter().map(|b| b.insts.len()).sum::<usize>()).sum();
    let o = sh.out.lock().unwrap();
    let mut j = String::from("{");
    let _ = write!(j, "\"load_s\":{:.3},\"wall_s\":{:.3},\"timed_out\":{},\"z3\":{},\"functions\":{},\"instructions\":{},\"runs\":[", load_time, sh.start.elapsed().as_secs_f64(), sh.timed_out.load(Relaxed), js(unsafe { std::ffi::CStr::from_ptr(ffi::Z3_get_full_version()) }.to_str().unwrap()), nf, insts);
    for i in 0..n {
        let s = &o.stats[i];
        if i > 0 { j.push(','); }
        let _ = write!(j, "\n{{\"run\":{},", js(&sh.runs[i].label));
        macro_rules! w { ($($f:ident),*) => { $( let _ = write!(j, "\"{}\":{},", stringify!($f), s.$f); )* } }
        w!(paths, pruned, forks, insts, decisions, forced_by_facts, forced_by_solver, asserts, asserts_rewritten, asserts_by_facts, asserts_by_solver, panics_expected, sat, unsat, unknown, solver_time, max_path_insts, max_pc, concretized, replays, digest_terms, inputs_bits);
        let _ = write!(j, "\"covers\":{},\"tags\":{},\"incomplete\":{},", jmap(s.covers.iter()), jmap(s.tags.iter()), jmap(s.incomplete.iter()));
        let v: Vec<String> = o.viol.iter().filter(|v| v.run == i).map(|v| format!("{{\"tag\":{},\"msg\":{},\"inputs\":{},\"insts\":{}}}", js(&v.tag), js(&v.msg), js(&v.inputs), v.insts)).collect();
        let p: Vec<String> = o.samples[i].iter().map(|v| format!("{{\"inputs\":{},\"obs\":{},\"panicked\":{}}}", js(&v.inputs), js(&v.obs), v.panicked)).collect();
        let _ = write!(j, "\"violation_count\":{},\"violations\":[{}],\"samples\":[{}]}}", sh.viol_count[i].load(Relaxed), v.join(","), p.join(","));
    }
    j.push_str("],\n\"lines\":[");
    let mut l: Vec<String> = sh.cov.iter().enumerate().filter(|(i, c)| *i > 0 && c.load(Relaxed)).map(|(i, _)| format!("[{},{}]", js(&sh.m.locs[i].0), sh.m.locs[i].1)).collect();
    l.sort();
    j.push_str(&l.join(","));
    j.push_str("],\n\"all_lines\":[");
    let mut l: Vec<String> = sh.m.locs.iter().skip(1).map(|x| format!("[{},{}]", js(&x.0), x.1)).collect();
    l.sort();
    j.push_str(&l.join(","));
    j.push_str("]}\n");
    if out.is_empty() { print!("{}", j); } else { std::fs::write(out, j).unwrap(); }
}
