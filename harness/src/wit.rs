//! Witnesses of maps: C01 to C05.
use crate::model::*;
use crate::sv;
use certified_vars::label::{Label, Prefix};
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Hash, HashTree, Map, Seq};
use std::borrow::Borrow;

// ---------- C01: every witness reconstructs to the root hash ----------
fn same_root(w: HashTree, root: &Hash) {
    sv::check(same(&w.reconstruct(), root), "reconstruct");
}
/// One witness of each kind over a map with any content.
fn all_kinds<K: Key, V: Val>(s: &State<Map<K, V>, K, V>) {
    let root = s.map.root_hash();
    sv::obs_bytes(&root);
    match sv::choice(6) {
        0 => { let q = K::fresh(); sv::cover("point"); same_root(s.map.witness(&q), &root) }
        1 => { sv::cover("keys"); same_root(s.map.witness_keys(), &root) }
        2 => { let (a, b) = range::<K>(); sv::cover("key range"); same_root(s.map.witness_key_range::<K, K>(&a, &b), &root) }
        3 => { let (a, b) = range::<K>(); sv::cover("value range"); same_root(s.map.witness_value_range::<K, K>(&a, &b), &root) }
        4 => { sv::cover("full"); same_root(s.map.as_hash_tree(), &root) }
        _ => {
            // the caller builds the value witness, here a pruned one
            let q = K::fresh();
            sv::cover("nested");
            same_root(s.map.as_tree().nested_witness(&q, |v| HashTree::Pruned(v.root_hash())), &root)
        }
    }
}
fn range<K: Key>() -> (K, K) {
    let (a, b) = (K::fresh(), K::fresh());
    sv::assume(a <= b);
    (a, b)
}
fn kinds<K: Key, V: Val>() { let s: State<Map<K, V>, K, V> = build(); all_kinds(&s); }
/// After a history of operations from the empty map, instead of a prepared content.
fn kinds_history<K: Key>() {
    let mut map: Map<K, u8> = Map::new();
    for _ in 0..sv::param("k") { match sv::choice(2) { 0 => { map.insert(K::fresh(), sv::u8()); } _ => { map.remove(&K::fresh()); } } }
    all_kinds(&State { map, m: vec![] });
}

// ---------- C02: what a point witness proves, and that no witness lies ----------
fn point<K: Key, V: Val>() {
    let s: State<Map<K, V>, K, V> = build();
    let q = K::fresh();
    let w = s.map.witness(&q);
    let it = items(&w, &s.m, "false-key");
    no_false_absence(&it, s.m.len(), "false-absence");
    let r = reveal(&it, &s.m, "false-value");
    match place(&s.m, &q) {
        At::Key(i) => {
            sv::cover("present");
            sv::check(r[i] == 2, "presence-not-proved");
            for j in 0..r.len() { sv::check(j == i || r[j] == 0, "entry-shown-needlessly") }
        }
        At::Gap(g) => {
            sv::cover("absent");
            sv::check(absence_shown(&it, g, s.m.len()), "absence-not-proved");
            for j in 0..r.len() { if j == g || j + 1 == g { sv::check(r[j] == 1 || s.m[j].1.leaf().is_none(), "value-shown") } else { sv::check(r[j] == 0, "entry-shown-needlessly") } }
        }
    }
    for x in &r { sv::obs(*x as u64) }
}
/// The entries on both sides of the gap stand next to each other.
fn absence_shown(it: &[Item], g: usize, n: usize) -> bool {
    let at = |j: usize| match it.get(j) { Some(Item::Entry(k, _)) => Some(*k), _ => None };
    if n == 0 { return it.is_empty(); }
    if g == 0 { return at(0) == Some(0); }
    let mut p = 0;
    while p < it.len() && at(p) != Some(g - 1) { p += 1 }
    if p == it.len() { return false; }
    if g == n { p + 1 == it.len() } else { at(p + 1) == Some(g) }
}
/// No witness of any kind lets its reader conclude anything false.
fn honest<K: Key, V: Val>() {
    let s: State<Map<K, V>, K, V> = build();
    let w = match sv::choice(4) {
        0 => s.map.witness_keys(),
        1 => { let (a, b) = range::<K>(); s.map.witness_key_range::<K, K>(&a, &b) }
        2 => { let (a, b) = range::<K>(); s.map.witness_value_range::<K, K>(&a, &b) }
        _ => s.map.as_hash_tree(),
    };
    let it = items(&w, &s.m, "false-key");
    no_false_absence(&it, s.m.len(), "false-absence");
    reveal(&it, &s.m, "false-value");
    sv::cover("end");
}

// ---------- C03, C04: range witnesses ----------
/// What a range witness has to show: nothing, the key, or everything (inner).
fn expected<K: Key, V>(m: &[(K, V)], a: &K, b: &K, inner: u8) -> Vec<u8> {
    let mut e = vec![0; m.len()];
    let (lo, hi) = (place(m, a), place(m, b));
    let first = match lo { At::Key(i) => i, At::Gap(g) => { if g > 0 { e[g - 1] = 1 } g } };
    let end = match hi { At::Key(i) => i + 1, At::Gap(g) => { if g < m.len() { e[g] = 1 } g } };
    for x in &mut e[first..end.max(first)] { *x = inner }
    e
}
fn compare(w: &HashTree, m: &[(impl Key, impl Val)], e: &[u8]) {
    let it = items(w, m, "false-key");
    let r = reveal(&it, m, "false-value");
    for i in 0..m.len() {
        sv::obs(r[i] as u64);
        if r[i] < e[i] { sv::fail(if e[i] == 2 { "entry-not-shown" } else { "key-not-shown" }) }
        if r[i] > e[i] { sv::fail(if e[i] == 1 { "value-shown" } else { "entry-shown-needlessly" }) }
    }
    no_gap(&it, "gap");
    no_false_absence(&it, m.len(), "false-absence");
}
/// Nothing is hidden between two shown entries.
fn no_gap(it: &[Item], tag: &str) {
    let f = it.iter().position(|x| matches!(x, Item::Entry(..)));
    let l = it.iter().rposition(|x| matches!(x, Item::Entry(..)));
    if let (Some(f), Some(l)) = (f, l) { for x in &it[f..=l] { sv::check(matches!(x, Item::Entry(..)), tag) } }
}
fn key_range<K: Key>() {
    let s: State<Map<K, u8>, K, u8> = build();
    let (a, b) = range::<K>();
    let e = expected(&s.m, &a, &b, 1);
    compare(&s.map.witness_key_range::<K, K>(&a, &b), &s.m, &e);
    if e.iter().all(|x| *x == 0) { sv::cover("nothing") } else { sv::cover("something") }
}
fn value_range<K: Key>() {
    let s: State<Map<K, u8>, K, u8> = build();
    let (a, b) = range::<K>();
    let e = expected(&s.m, &a, &b, 2);
    compare(&s.map.witness_value_range::<K, K>(&a, &b), &s.m, &e);
    if e.contains(&2) { sv::cover("entries") } else { sv::cover("no entry") }
}
fn all_keys<K: Key>() {
    let s: State<Map<K, u8>, K, u8> = build();
    let w = s.map.witness_keys();
    compare(&w, &s.m, &vec![1; s.m.len()]);
    let mut f = vec![];
    flatten(&w, &mut f);
    sv::check(f.len() == s.m.len(), "something-hidden");
    sv::cover("end");
}

// ---------- C05: prefix witnesses ----------
/// The entries having the prefix, as a range, by the definition on their bytes.
pub fn group<K: Key, V>(m: &[(K, V)], p: &[u8]) -> (usize, usize) {
    let mut a = 0;
    while a < m.len() && m[a].0.bytes()[..] < *p { a += 1 }
    let mut b = a;
    while b < m.len() && { let x = m[b].0.bytes(); x.len() >= p.len() && sv::eq(&x[..p.len()], p) } { b += 1 }
    (a, b)
}
fn prefixed<K: Key + Prefix<P>, P: Ord + ?Sized, B: Borrow<P>>(mk: fn() -> (B, Vec<u8>)) {
    let s: State<Map<K, u8>, K, u8> = build();
    let (p, pb) = mk();
    let (a, b) = group(&s.m, &pb);
    let w = s.map.witness_keys_with_prefix(p.borrow());
    sv::check(same(&w.reconstruct(), &s.map.root_hash()), "reconstruct");
    let it = items(&w, &s.m, "false-key");
    let r = reveal(&it, &s.m, "false-value");
    no_false_absence(&it, s.m.len(), "false-absence");
    let n = s.m.len();
    for i in 0..n {
        sv::obs(r[i] as u64);
        if r[i] == 2 { sv::fail("value-shown") }
        if i >= a && i < b { if r[i] == 0 { sv::fail("prefixed-key-not-shown") } }
        else if r[i] == 1 && i + 1 != a && i != b { sv::fail("key-shown-needlessly") }
    }
    // the neighbours prove that nothing is missing; none is needed below a key that is the prefix itself
    let exact = a < b && s.m[a].0.bytes().len() == pb.len();
    if a > 0 && !exact && r[a - 1] == 0 { sv::fail("lower-neighbour-not-shown") }
    if b < n && r[b] == 0 { sv::fail("upper-neighbour-not-shown") }
    no_gap(&it, "gap");
    if a == b { sv::cover("no key has it") } else if b > a + 1 { sv::cover("several keys have it") } else { sv::cover("one key has it") }
}
pub fn byte_prefix() -> (Vec<u8>, Vec<u8>) { let n = sv::choice(sv::param("plen") + 1); let v = sv::vec(n); (v.clone(), v) }
pub fn text_prefix() -> (String, Vec<u8>) { let s = text(sv::choice(sv::param("plen") + 1)); let b = s.as_bytes().to_vec(); (s, b) }
pub fn lead() -> (u8, Vec<u8>) { let a = sv::u8(); (a, vec![a]) }

harness! {
    fn c01_u8() { kinds::<u8, u8>() }
    fn c01_u16() { kinds::<u16, Vec<u8>>() }
    fn c01_arr() { kinds::<[u8; 2], u8>() }
    fn c01_vec() { kinds::<Vec<u8>, u8>() }
    fn c01_string() { kinds::<String, u8>() }
    fn c01_seq() { kinds::<u8, Seq<u8>>() }
    fn c01_history() { kinds_history::<u8>() }
    fn c01_prefix() {
        let s: State<Map<Vec<u8>, u8>, Vec<u8>, u8> = build();
        let (p, _) = byte_prefix();
        same_root(s.map.witness_keys_with_prefix(&p[..]), &s.map.root_hash());
        sv::cover("end");
    }
    fn c01_prefix_comp() {
        let s: State<Map<Pair, u8>, Pair, u8> = build();
        let p = sv::u8();
        same_root(s.map.witness_keys_with_prefix(&p), &s.map.root_hash());
        sv::cover("end");
    }
    fn c01_map_in_map() {
        // a witness of the inner map below the outer key
        let s: State<Map<u8, u8>, u8, u8> = build();
        let n = s.m.len();
        let mut outer: Map<u8, Map<u8, u8>> = Map::new();
        let k = increasing::<u8>(3);
        let at = sv::choice(3);
        let mut inner = Some(s.map);
        for i in [1, 0, 2] { if i == at { outer.insert(k[i], inner.take().unwrap()); } else { let mut m = Map::new(); m.insert(sv::u8(), sv::u8()); outer.insert(k[i], m); } }
        let q = sv::u8();
        let w = outer.as_tree().nested_witness(&k[at], |m| m.witness(&q));
        same_root(w, &outer.root_hash());
        if n == 0 { sv::cover("empty inner map") } else { sv::cover("inner map") }
    }

    fn c02_u8() { point::<u8, u8>() }
    fn c02_u16() { point::<u16, Vec<u8>>() }
    fn c02_vec() { point::<Vec<u8>, u8>() }
    fn c02_string() { point::<String, u8>() }
    fn c02_seq() { point::<u8, Seq<u8>>() }
    fn c02_honest_u8() { honest::<u8, u8>() }
    fn c02_honest_vec() { honest::<Vec<u8>, u8>() }
    fn c02_honest_prefix() {
        let s: State<Map<Vec<u8>, u8>, Vec<u8>, u8> = build();
        let (p, _) = byte_prefix();
        let w = s.map.witness_keys_with_prefix(&p[..]);
        let it = items(&w, &s.m, "false-key");
        no_false_absence(&it, s.m.len(), "false-absence");
        reveal(&it, &s.m, "false-value");
        sv::cover("end");
    }

    fn c03_u8() { key_range::<u8>() }
    fn c03_u16() { key_range::<u16>() }
    fn c03_vec() { key_range::<Vec<u8>>() }
    fn c03_all_u8() { all_keys::<u8>() }
    fn c03_all_vec() { all_keys::<Vec<u8>>() }

    fn c04_u8() { value_range::<u8>() }
    fn c04_u16() { value_range::<u16>() }
    fn c04_vec() { value_range::<Vec<u8>>() }

    fn c05_vec() { prefixed::<Vec<u8>, [u8], Vec<u8>>(byte_prefix) }
    fn c05_box() { prefixed::<Box<[u8]>, [u8], Vec<u8>>(byte_prefix) }
    fn c05_arr() { prefixed::<[u8; 2], [u8], Vec<u8>>(byte_prefix) }
    fn c05_string() { prefixed::<String, str, String>(text_prefix) }
    fn c05_comp() { prefixed::<Comp, u8, u8>(lead) }
    fn c05_pair() { prefixed::<Pair, u8, u8>(lead) }
}
