//! The map as a dictionary, its certified hash, shape, memory, iteration and entry API: C06 to C12, C16, C25.
use crate::model::*;
use crate::sv;
use crate::wit::{byte_prefix, group, lead, text_prefix};
use certified_vars::label::{Label, Prefix};
use certified_vars::hashtree::fork;
use certified_vars::rbtree::entry::Entry;
use certified_vars::rbtree::iterator::RbTreeIterator;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Hash, HashTree, Map, Seq};
use std::borrow::Borrow;

// ---------- the dictionary model ----------
pub type M<K, V> = Vec<(K, V)>;
pub fn m_insert<K: Ord, V>(m: &mut M<K, V>, k: K, v: V) -> Option<V> {
    match place(m, &k) { At::Key(i) => Some(std::mem::replace(&mut m[i].1, v)), At::Gap(g) => { m.insert(g, (k, v)); None } }
}
pub fn m_remove<K: Ord, V>(m: &mut M<K, V>, k: &K) -> Option<(K, V)> {
    match place(m, k) { At::Key(i) => Some(m.remove(i)), At::Gap(_) => None }
}
fn m_get<'a, K: Ord, V>(m: &'a M<K, V>, k: &K) -> Option<&'a V> { match place(m, k) { At::Key(i) => Some(&m[i].1), At::Gap(_) => None } }
fn check_opt<V: Val>(a: Option<&V>, b: Option<&V>, tag: &str) {
    match (a, b) { (None, None) => {} (Some(a), Some(b)) => sv::check(a.same(b), tag), _ => sv::fail(tag) }
}
/// The very same key, or only an equal one.
fn eqk<K: Key>(a: &K, b: &K) -> bool { sv::eq(&a.ident(), &b.ident()) }
fn eql<K: Key>(a: &K, b: &K) -> bool { sv::eq(&a.bytes(), &b.bytes()) }

fn contents<K: Key, V: Val>(t: &RbTree<K, V>, m: &M<K, V>) {
    sv::check(t.len() == m.len(), "length");
    sv::check(t.is_empty() == m.is_empty(), "emptiness");
    let mut n = 0;
    for (k, v) in RbTreeIterator::new(t) {
        if n >= m.len() { sv::fail("extra-entry") }
        sv::check(eqk(k, &m[n].0), "key");
        sv::check(v.same(&m[n].1), "value");
        n += 1;
    }
    sv::check(n == m.len(), "missing-entry");
    for (k, v) in m {
        check_opt(t.get(k), Some(v), "get");
    }
}
/// The root hash commits to the contents, by recomputation over the exposed tree.
fn committed<K: Key, V: Val>(t: &RbTree<K, V>, m: &M<K, V>, tag: &str) {
    let full = t.as_hash_tree();
    full_matches(&full, m, "exposed-contents");
    sv::check(same(&rebuild(&full), &t.root_hash()), tag);
}

// ---------- C06 ----------
fn map_op<K: Key, V: Val>(map: &mut Map<K, V>, m: &mut M<K, V>, write: bool) {
    match sv::choice(7) {
        0 => { let (k, v) = (K::fresh(), V::fresh()); let a = map.insert(k.clone(), v.clone()); let b = m_insert(m, k, v); check_opt(a.as_ref(), b.as_ref(), "insert-result"); sv::cover(if b.is_some() { "overwrite" } else { "insert" }) }
        1 => { let k = K::fresh(); let a = map.remove(&k); let b = m_remove(m, &k); check_opt(a.as_ref(), b.as_ref().map(|x| &x.1), "remove-result"); sv::cover(if b.is_some() { "remove" } else { "remove nothing" }) }
        2 => {
            let k = K::fresh();
            let a = map.remove_entry(&k);
            let b = m_remove(m, &k);
            match (&a, &b) { (None, None) => {} (Some(a), Some(b)) => { sv::check(eqk(&a.0, &b.0), "remove-entry-key"); sv::check(a.1.same(&b.1), "remove-entry-value") } _ => sv::fail("remove-entry-result") }
            sv::cover("remove entry")
        }
        3 => { map.clear(); m.clear(); sv::cover("clear") }
        4 => {
            let k = K::fresh();
            let v = V::fresh();
            let a = map.get_mut(&k);
            match (a, place(m, &k)) { (None, At::Gap(_)) => {} (Some(x), At::Key(i)) => { sv::check(x.same(&m[i].1), "get-mut"); if write { *x = v.clone(); m[i].1 = v } } _ => sv::fail("get-mut") }
            sv::cover("get_mut")
        }
        5 => {
            let k = K::fresh();
            check_opt(map.get(&k), m_get(m, &k), "get");
            check_opt(map.as_tree().get_with(|x| k.cmp(x)), m_get(m, &k), "get-with");
            sv::cover("lookup")
        }
        _ => {
            let k = K::fresh();
            let v = V::fresh();
            let was = m_get(m, &k).is_some();
            match map.entry(k.clone()) { Entry::Vacant(e) => { sv::check(!was, "entry-kind"); e.insert(v.clone()); } Entry::Occupied(e) => { sv::check(was, "entry-kind"); let x = e.remove(); sv::check(x.same(m_get(m, &k).unwrap()), "entry-remove") } }
            if was { m_remove(m, &k); } else { m_insert(m, k, v); }
            sv::cover("entry")
        }
    }
}
fn dict_step<K: Key, V: Val>() {
    let mut s: State<Map<K, V>, K, V> = build();
    for _ in 0..sv::param("k") { map_op(&mut s.map, &mut s.m, true); }
    contents(s.map.as_tree(), &s.m);
    sv::obs(s.map.len() as u64);
}
fn dict_history<K: Key>() {
    let mut map: Map<K, u8> = Map::new();
    let mut m = vec![];
    for _ in 0..sv::param("k") { map_op(&mut map, &mut m, true); }
    contents(map.as_tree(), &m);
    sv::obs_bytes(&map.root_hash());
}
/// Looks at a map in every way; none of it may make a difference later.
fn peek<K: Key, V: Val>(map: &Map<K, V>) {
    let h = map.root_hash();
    sv::check(same(&map.as_hash_tree().reconstruct(), &h), "stale-root-hash");
    sv::check(same(&map.witness_keys().reconstruct(), &h), "stale-root-hash");
    let mut it = map.iter();
    let first = it.next().map(|e| e.0.clone());
    if let Some(k) = first { sv::check(same(&map.witness(&k).reconstruct(), &h), "stale-root-hash"); sv::check(map.get(&k).is_some(), "get") }
    sv::check(it.count() + !map.is_empty() as usize == map.len(), "length");
}
/// Operations on the map, looked at in between or not.
fn peeked<K: Key, V: Val>() {
    let mut s: State<Map<K, V>, K, V> = build();
    let look = sv::choice(2) == 1;
    for _ in 0..sv::param("k") {
        if look { peek(&s.map) }
        map_op(&mut s.map, &mut s.m, false);
    }
    contents(s.map.as_tree(), &s.m);
    committed(s.map.as_tree(), &s.m, "stale-root-hash");
    sv::check(same(&s.map.root_hash(), &s.map.as_tree().root_hash()), "stale-root-hash");
    peek(&s.map);
}
/// Operations on a map that was collected, or that comes back from its serialized form. What that form is does not matter here.
fn revived<K: Key + serde::Serialize + serde::de::DeserializeOwned, V: Val + serde::Serialize + serde::de::DeserializeOwned>() {
    let mut s: State<Map<K, V>, K, V> = build();
    let map = if sv::choice(2) == 0 { Some(s.m.iter().cloned().collect()) } else { serde_cbor::to_vec(&s.map).ok().and_then(|b| serde_cbor::from_slice(&b).ok()) };
    s.map = match map { Some(m) => m, None => return sv::cover("not revived") };
    if s.map.len() != s.m.len() { return sv::cover("not revived") }
    for _ in 0..sv::param("k") { map_op(&mut s.map, &mut s.m, false); }
    contents(s.map.as_tree(), &s.m);
    committed(s.map.as_tree(), &s.m, "stale-root-hash");
    sv::cover("end");
}
/// Only inserts and removals, with keys taken from a few symbolic ones in known order: longer histories.
fn dict_ranked<K: Key>() {
    let n = sv::param("n");
    let keys = increasing::<K>(n);
    let mut map: Map<K, u8> = Map::new();
    let mut m: M<K, u8> = vec![];
    for _ in 0..sv::param("k") {
        let c = sv::choice(2 * n);
        let k = keys[c / 2].clone();
        if c % 2 == 0 { let v = sv::u8(); let a = map.insert(k.clone(), v); let b = m_insert(&mut m, k, v); check_opt(a.as_ref(), b.as_ref(), "insert-result"); }
        else { let a = map.remove(&k); let b = m_remove(&mut m, &k); check_opt(a.as_ref(), b.as_ref().map(|x| &x.1), "remove-result"); }
    }
    contents(map.as_tree(), &m);
    committed(map.as_tree(), &m, "stale-root-hash");
    sv::cover("end");
}
/// A large map at several points of its growth and decline.
fn long_dict<K: Key, V: Val>() {
    let n = sv::param("n");
    let rule = sv::choice(6);
    let mut map: Map<K, V> = Map::new();
    let mut m: M<K, V> = vec![];
    let check = |map: &Map<K, V>, m: &M<K, V>| {
        contents(map.as_tree(), m);
        committed(map.as_tree(), m, "stale-root-hash");
        let mut it = map.iter();
        for i in 0..m.len() { sv::check(it.size_hint() == (m.len() - i, Some(m.len() - i)), "size-hint"); sv::check(it.next().is_some(), "ended-early") }
        sv::check(it.next().is_none() && it.size_hint() == (0, Some(0)), "after-the-end");
        let mut i = 0;
        map.as_tree().for_each(|k, v| { if i >= m.len() { sv::fail("for-each") } sv::check(eqk(k, &m[i].0) && v.same(&m[i].1), "for-each"); i += 1; });
        sv::check(i == m.len(), "for-each");
    };
    for i in 0..n {
        let (k, v) = (K::nth(order(rule, i, n)), V::fresh());
        sv::check(map.get(&k).is_none(), "get");
        sv::check(map.insert(k.clone(), v.clone()).is_none(), "insert-result");
        m_insert(&mut m, k, v);
        if i % 16 == 15 || i < 3 { check(&map, &m) }
    }
    for i in 0..n {
        let k = K::nth(order((rule + 1) % 5, i, n));
        match i % 4 {
            0 => { let v = V::fresh(); let a = map.insert(k.clone(), v.clone()); let b = m_insert(&mut m, k, v); check_opt(a.as_ref(), b.as_ref(), "insert-result") }
            3 if rule % 2 == 0 => {}
            _ => { let a = map.remove(&k); let b = m_remove(&mut m, &k); check_opt(a.as_ref(), b.as_ref().map(|x| &x.1), "remove-result"); sv::check(map.get(&k).is_none(), "get") }
        }
        if i % 16 == 15 { check(&map, &m) }
    }
    check(&map, &m);
    for i in 0..n {
        let k = K::nth(order((rule + 3) % 5, i, n));
        let a = map.remove(&k);
        let b = m_remove(&mut m, &k);
        check_opt(a.as_ref(), b.as_ref().map(|x| &x.1), "remove-result");
        if i % 16 == 15 { check(&map, &m) }
    }
    check(&map, &m);
    sv::check(map.is_empty(), "emptiness");
    sv::cover("end");
}
/// Maps collected from iterators that tell their length, a part of it or nothing; the last of equal keys wins.
fn collect_loose() {
    let n = sv::param("n");
    let (rule, twice) = (sv::choice(6), sv::choice(4));
    let len = n + match twice { 0 => 0, 1 => 1, 2 => n / 2, _ => n };
    let v: Vec<(u16, u8)> = (0..len).map(|i| (u16::nth(if i < n { order(rule, i, n) } else { order((rule + twice) % 5, i - n, n) }), sv::u8())).collect();
    let mut m: M<u16, u8> = vec![];
    for (k, x) in &v { match m.binary_search_by(|e| e.0.cmp(k)) { Ok(i) => m[i].1 = *x, Err(g) => m.insert(g, (*k, *x)) } }
    let map: Map<u16, u8> = match sv::choice(8) {
        0 => v.into_iter().collect(),
        1 => v.into_iter().filter(|e| e.0 > 0).collect(),
        2 => { let (a, b) = v.split_at(n); a.iter().chain(b).copied().collect() }
        3 => v.chunks(7).flat_map(|c| c.iter().copied()).collect(),
        4 => { let mut i = 0; std::iter::from_fn(|| { i += 1; v.get(i - 1).copied() }).collect() }
        5 => { let mut it = v.into_iter().peekable(); it.peek(); it.collect() }
        6 => v.iter().copied().rev().rev().take_while(|_| true).collect(),
        _ => Map::from_iter(v.into_iter().step_by(1).skip_while(|_| false)),
    };
    contents(map.as_tree(), &m);
    committed(map.as_tree(), &m, "stale-root-hash");
    sv::cover("end");
}
/// Thousands of entries: through the map, its iterator, its tree and its hash, as a whole.
fn huge() {
    let n = sv::param("n");
    let rule = sv::choice(6);
    let mut map: Map<u16, u16> = Map::new();
    let key = |i: usize| (i * 5 + 3) as u16;
    for i in 0..n { let i = order(rule, i, n); sv::check(map.insert(key(i), (i ^ 0x5a5a) as u16).is_none(), "insert-result") }
    let whole = |map: &Map<u16, u16>, is: &[usize]| {
        sv::check(map.len() == is.len(), "length");
        let mut it = map.iter();
        for (j, &i) in is.iter().enumerate() {
            sv::check(it.size_hint() == (is.len() - j, Some(is.len() - j)), "size-hint");
            match it.next() { Some((k, v)) => sv::check(*k == key(i) && *v == (i ^ 0x5a5a) as u16, "order"), None => sv::fail("ended-early") }
        }
        sv::check(it.next().is_none(), "after-the-end");
        let mut j = 0;
        map.as_tree().for_each(|k, _| { sv::check(*k == key(is[j]), "for-each"); j += 1 });
        sv::check(j == is.len(), "for-each");
        let t = map.as_hash_tree();
        let mut f = vec![];
        flatten(&t, &mut f);
        sv::check(f.len() == is.len(), "exposed-contents");
        for (t, &i) in f.iter().zip(is) { match t { HashTree::Labeled(l, s) => { sv::check(l[..] == key(i).to_be_bytes(), "exposed-contents"); sv::check(matches!(&**s, HashTree::Leaf(d) if d[..] == ((i ^ 0x5a5a) as u16).to_be_bytes()), "exposed-contents") } _ => sv::fail("exposed-contents") } }
        sv::check(same(&rebuild(&t), &map.root_hash()), "stale-root-hash");
        for &i in is.iter().step_by(17) { sv::check(map.get(&key(i)) == Some(&((i ^ 0x5a5a) as u16)), "get"); sv::check(map.get(&(key(i) + 1)).is_none(), "get") }
    };
    whole(&map, &(0..n).collect::<Vec<_>>());
    // without two in three
    for i in 0..n { let i = order((rule + 1) % 5, i, n); if i % 3 != 0 { sv::check(map.remove(&key(i)) == Some((i ^ 0x5a5a) as u16), "remove-result") } }
    whole(&map, &(0..n).step_by(3).collect::<Vec<_>>());
    let q = sv::u16();
    let from = [0, key(n / 2), key(n - 1) - 20][sv::choice(3)];
    sv::assume((q >= from) & (q < from + 40));
    sv::check(map.get(&q).is_some() == (q >= 3 && (q as usize - 3) % 15 == 0 && (q as usize - 3) / 5 < n), "get");
    sv::cover("end");
}
/// From every shape, remove all entries in an order of the solver's choice (first ones free, then fixed).
fn drain<K: Key>() {
    let mut s: State<Map<K, u8>, K, u8> = build();
    let mut free = sv::param("free");
    let rule = sv::choice(3);
    while !s.m.is_empty() {
        let n = s.m.len();
        let i = if free > 0 { free -= 1; sv::choice(n) } else { match rule { 0 => 0, 1 => n - 1, _ => n / 2 } };
        let k = s.m[i].0.clone();
        let a = s.map.remove(&k);
        let b = m_remove(&mut s.m, &k);
        check_opt(a.as_ref(), b.as_ref().map(|x| &x.1), "remove-result");
        contents(s.map.as_tree(), &s.m);
        committed(s.map.as_tree(), &s.m, "stale-root-hash");
    }
    sv::check(s.map.is_empty() && s.map.len() == 0, "emptiness");
    sv::cover("end");
}

// ---------- C07 ----------
/// One operation on the tree; the root hash must commit to the contents afterwards and stay if nothing was to change.
fn tree_op<K: Key, V: Val>(t: &mut RbTree<K, V>, m: &mut M<K, V>) {
    let before = t.root_hash();
    let mut changed = true;
    match sv::choice(6) {
        0 => { let (k, v) = (K::fresh(), V::fresh()); let (a, r) = t.insert(k.clone(), v.clone()); sv::check(r.same(&v), "insert-reference"); let b = m_insert(m, k, v); check_opt(a.as_ref(), b.as_ref(), "insert-result"); sv::cover(if b.is_some() { "overwrite" } else { "insert" }) }
        1 => {
            let k = K::fresh();
            let a = t.delete(&k);
            let b = m_remove(m, &k);
            changed = b.is_some();
            sv::check(a.is_some() == changed, "delete-result");
            sv::cover(if changed { "delete" } else { "delete nothing" })
        }
        2 => {
            let (k, v) = (K::fresh(), V::fresh());
            let a = t.modify(&k, |x| { let o = x.clone(); *x = v.clone(); o });
            let b = match place(m, &k) { At::Key(i) => Some(std::mem::replace(&mut m[i].1, v)), At::Gap(_) => None };
            changed = b.is_some();
            check_opt(a.as_ref(), b.as_ref(), "modify-result");
            sv::cover(if changed { "modify" } else { "modify nothing" })
        }
        3 => {
            let (k, v) = (K::fresh(), V::fresh());
            changed = entry_op(t, m, k, v);
        }
        4 => {
            // looked up, but nothing done with it
            let k = K::fresh();
            let occupied = matches!(t.entry(k.clone()), Entry::Occupied(_));
            sv::check(occupied == m_get(m, &k).is_some(), "entry-kind");
            changed = false;
            sv::cover("entry dropped")
        }
        _ => {
            let k = K::fresh();
            let x = t.modify(&k, |_| ());
            sv::check(x.is_some() == m_get(m, &k).is_some(), "modify-result");
            changed = false;
            sv::cover("modify to the same")
        }
    }
    if !changed { sv::check(same(&before, &t.root_hash()), "no-op-changed-hash") }
}
fn hash_step<K: Key, V: Val>() {
    let mut s: State<RbTree<K, V>, K, V> = build();
    committed(&s.map, &s.m, "stale-root-hash");
    for _ in 0..sv::param("k") { tree_op(&mut s.map, &mut s.m); committed(&s.map, &s.m, "stale-root-hash"); }
    sv::obs_bytes(&s.map.root_hash());
}
fn hash_history<K: Key>() {
    let mut t: RbTree<K, u8> = RbTree::new();
    let mut m = vec![];
    for _ in 0..sv::param("k") { tree_op(&mut t, &mut m); }
    committed(&t, &m, "stale-root-hash");
    sv::obs_bytes(&t.root_hash());
}
/// Writing through a mutable reference handed out by the API, then looking at the root hash.
fn reference_write(first: usize) {
    let mut s: State<Map<u8, u8>, u8, u8> = build();
    let (k, v) = (sv::u8(), sv::u8());
    let was = m_get(&s.m, &k).copied();
    let tag = match first + sv::choice(5 - first) {
        0 => { if let Some(r) = s.map.get_mut(&k) { *r = v; m_insert(&mut s.m, k, v); } "stale-after-get_mut-write" }
        1 => { let r = s.map.entry(k).or_insert(7); *r = v; m_insert(&mut s.m, k, v); "stale-after-or_insert-write" }
        2 => { match s.map.entry(k) { Entry::Occupied(mut e) => { *e.get_mut() = v; m_insert(&mut s.m, k, v); } Entry::Vacant(_) => {} } "stale-after-entry-get_mut-write" }
        3 => { match s.map.entry(k) { Entry::Occupied(e) => { *e.into_mut() = v; m_insert(&mut s.m, k, v); } Entry::Vacant(_) => {} } "stale-after-entry-into_mut-write" }
        _ => { match s.map.entry(k) { Entry::Vacant(e) => { *e.insert(7) = v; m_insert(&mut s.m, k, v); } Entry::Occupied(_) => {} } "stale-after-entry-insert-write" }
    };
    contents(s.map.as_tree(), &s.m);
    // unchanged when what was written is what was there
    let t = s.map.as_tree();
    let full = t.as_hash_tree();
    full_matches(&full, &s.m, "exposed-contents");
    let _ = was;
    sv::cover("end");
    sv::check(same(&rebuild(&full), &t.root_hash()), tag);
}
fn tree_reference_write() {
    let mut s: State<RbTree<u8, u8>, u8, u8> = build();
    let (k, v, w) = (sv::u8(), sv::u8(), sv::u8());
    *s.map.insert(k, w).1 = v;
    m_insert(&mut s.m, k, v);
    contents(&s.map, &s.m);
    sv::cover("end");
    committed(&s.map, &s.m, "stale-after-insert-reference-write");
}
fn modify_prefix<K: Key + Prefix<P>, P: Ord + ?Sized, B: Borrow<P>>(mk: fn() -> (B, Vec<u8>)) {
    let mut s: State<RbTree<K, u8>, K, u8> = build();
    let (p, pb) = mk();
    let (a, b) = group(&s.m, &pb);
    let before = s.map.root_hash();
    // the query
    match s.map.max_entry_with_prefix(p.borrow()) {
        None => if a != b { sv::fail("max-missing") },
        Some((k, v)) => { if a == b { sv::fail("max-of-nothing") } sv::check(eqk(k, &s.m[b - 1].0), "max-key"); sv::check(*v == s.m[b - 1].1, "max-value") }
    }
    // the modification
    let v = sv::u8();
    let mut calls = 0;
    let r = s.map.modify_max_with_prefix(p.borrow(), |k, x| { calls += 1; if a == b { sv::fail("modified-nothing") } sv::check(eqk(k, &s.m[b - 1].0), "modified-key"); let o = *x; *x = v; o });
    sv::check(calls == (a != b) as usize, "calls");
    match r { None => if a != b { sv::fail("modify-result") }, Some(o) => { if a == b { sv::fail("modify-result") } sv::check(o == s.m[b - 1].1, "modify-result") } }
    if a != b { s.m[b - 1].1 = v; sv::cover("modified") } else { sv::check(same(&before, &s.map.root_hash()), "no-op-changed-hash"); sv::cover("nothing to modify") }
    contents(&s.map, &s.m);
    committed(&s.map, &s.m, "stale-root-hash");
}

// ---------- C08 ----------
/// The least depth of a search tree that is exposed as this hash tree.
fn depth(t: &HashTree, memo: &mut Vec<(usize, usize)>) -> usize {
    let id = t as *const HashTree as usize;
    if let Some(x) = memo.iter().find(|x| x.0 == id) { return x.1; }
    let d = match t {
        HashTree::Labeled(..) => 1,
        HashTree::Fork(f) => {
            let mut best = usize::MAX;
            if let HashTree::Labeled(..) = f.1 { best = best.min(1 + depth(&f.0, memo)) }
            if let HashTree::Labeled(..) = f.0 { best = best.min(1 + depth(&f.1, memo)) }
            if let HashTree::Fork(g) = &f.1 { if let HashTree::Labeled(..) = g.0 { best = best.min(1 + depth(&f.0, memo).max(depth(&g.1, memo))) } }
            if best == usize::MAX { best = (forks(t) + 1) / 2 }
            best
        }
        _ => 0,
    };
    memo.push((id, d));
    d
}
fn shallow(t: &RbTree<u16, u8>) -> usize {
    let n = t.len();
    let full = t.as_hash_tree();
    let d = depth(&full, &mut vec![]);
    sv::check(d < 60 && 1u64 << d <= ((n + 1) * (n + 1)) as u64, "depth");
    forks(&full)
}
fn ranks(rule: usize, i: usize, seed: usize, n: usize) -> usize {
    match rule { 0 => i, 1 => n - 1 - i, 2 => if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }, 3 => { let j = n - 1 - i; if j % 2 == 0 { j / 2 } else { n - 1 - j / 2 } } _ => (i * (2 * seed + 1) * 37 + seed * 11) % n }
}
/// Other ways to fill a map than one insert after the other: collected, through entries, through references of a prefix, back from its serialized form.
fn filled() {
    let n = sv::param("n");
    let keys: Vec<u16> = (0..n).map(|i| 2 * i as u16 + 1).collect();
    let (a, seed) = (sv::param("ins"), sv::param("seed"));
    let order: Vec<u16> = (0..n).map(|i| keys[ranks(a, i, seed, n)]).collect();
    let how = sv::choice(4);
    let mut map: Map<u16, u8> = match how {
        0 | 1 => order.iter().map(|k| (*k, 1)).collect(),
        2 => { let mut m = Map::new(); for k in &order { m.entry(*k).or_insert(1); } m }
        _ => { let mut m = Map::new(); for k in &order { if let Entry::Vacant(e) = m.entry(*k) { e.insert(1); } } m }
    };
    if how == 0 { map = match serde_cbor::to_vec(&map).ok().and_then(|b| serde_cbor::from_slice(&b).ok()) { Some(m) => m, None => return sv::cover("not revived") } }
    shallow(map.as_tree());
    for i in 0..n * sv::param("part") / 100 {
        let k = keys[ranks(a, i, seed + 1, n)];
        match (how, map.entry(k)) { (2, Entry::Occupied(e)) => { e.remove(); } (3, Entry::Occupied(e)) => { e.remove_entry(); } _ => { map.remove(&k); } }
        if i % 8 == 7 { shallow(map.as_tree()); }
    }
    let f = shallow(map.as_tree());
    let q = sv::u16();
    sv::check(nodes(&map.witness(&q)) <= if map.get(&q).is_some() { 4 * f + 6 } else { 8 * f + 12 }, "witness-size");
    sv::cover("end");
}
/// A long history over keys in a fixed pattern of ranks: inserts, then removals, then inserts again.
fn long_history() {
    let n = sv::param("n");
    let keys = increasing::<u16>(n);
    let order = |rule: usize, i: usize, seed: usize| ranks(rule, i, seed, n);
    let (a, b) = (sv::param("ins"), sv::param("del"));
    let seed = sv::param("seed");
    let mut t: RbTree<u16, u8> = RbTree::new();
    for i in 0..n { t.insert(keys[order(a, i, seed)], i as u8); if i % 8 == 7 { shallow(&t); } }
    shallow(&t);
    let removed = n * sv::param("part") / 100;
    for i in 0..removed { t.delete(&keys[order(b, i, seed + 1)]); if i % 8 == 7 { shallow(&t); } }
    for i in 0..removed / 2 { t.insert(keys[order(b, i, seed + 2)], i as u8); t.delete(&keys[order(a, i, seed + 3)]); shallow(&t); }
    let f = shallow(&t);
    // witness sizes, for present and absent keys
    let mut seen = 0;
    for k in &keys { if t.get(k).is_some() { seen += 1; sv::check(nodes(&t.witness(k)) <= 4 * f + 6, "witness-size"); } }
    sv::check(seen == t.len(), "length");
    if sv::param("absent") == 1 {
        let q = sv::u16();
        let w = nodes(&t.witness(&q));
        sv::check(w <= if t.get(&q).is_some() { 4 * f + 6 } else { 8 * f + 12 }, "witness-size");
    }
    sv::obs(f as u64);
    sv::cover("end");
}
/// Histories of any order within a small number of operations.
fn short_history() {
    let mut t: RbTree<u16, u8> = RbTree::new();
    for _ in 0..sv::param("k") { match sv::choice(2) { 0 => { t.insert(sv::u16(), 0); } _ => { t.delete(&sv::u16()); } } shallow(&t); }
    sv::cover("end");
}

// ---------- C09 ----------
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct BKey(Box<u8>);
impl Label for BKey { fn as_label(&self) -> std::borrow::Cow<[u8]> { std::borrow::Cow::Owned(vec![*self.0]) } }
impl Key for BKey { fn fresh() -> Self { BKey(Box::new(sv::u8())) } fn bytes(&self) -> Vec<u8> { vec![*self.0] } }
impl Borrow<u8> for BKey { fn borrow(&self) -> &u8 { &self.0 } }
/// Everything is on the heap: a leak, a double drop or a stray access shows as such in memory.
fn memory_op(map: &mut Map<BKey, Box<u8>>) {
    let k = BKey::fresh();
    let v: Box<u8> = Box::new(sv::u8());
    match sv::choice(20) {
        10 => { match map.entry(k) { Entry::Vacant(e) => { **e.insert(v) = 1 } Entry::Occupied(e) => { let x = e.remove(); sv::obs(*x as u64) } } sv::cover("entry") }
        11 => { match map.entry(k) { Entry::Vacant(e) => { sv::obs(*e.key().0 as u64) } Entry::Occupied(mut e) => { *e.get_mut() = v; sv::obs(**e.get() as u64); *e.into_mut() = Box::new(3) } } sv::cover("entry") }
        12 => { let e = map.entry(k).and_modify(|x| *x = v).or_insert_with(|| Box::new(9)); sv::obs(**e as u64); sv::cover("and_modify") }
        13 => { let e = map.entry(k).or_insert_with_key(|k| k.0.clone()); *e = v; sv::cover("or_insert_with_key") }
        14 => { let e = map.entry(k).or_default(); *e = v; sv::cover("or_default") }
        15 => { let n = map.iter().map(|(_, b)| **b as u64).sum(); sv::obs(n); sv::cover("iterator") }
        16 => { let m2 = std::mem::replace(map, Map::new()); sv::check(map.is_empty(), "emptiness"); sv::obs(m2.len() as u64); sv::cover("take") }
        17 => { let mut m2: Map<BKey, Box<u8>> = Map::new(); m2.insert(k, v); std::mem::swap(map, &mut m2); drop(m2); sv::cover("replace") }
        18 => { match map.entry(k) { Entry::Vacant(e) => drop(e), Entry::Occupied(e) => drop(e) } sv::cover("entry dropped") }
        19 => { sv::obs(map.get(&*k.0).map_or(0, |x| **x as u64)); sv::check(map.remove(&*k.0).is_none() || map.get(&k).is_none(), "removed"); sv::cover("borrowed") }
        0 => { drop(map.insert(k, v)); sv::cover("insert") }
        1 => { let n = map.len(); let x = map.remove(&k); sv::check(map.len() + x.is_some() as usize == n, "length"); sv::cover("remove") }
        2 => { if let Some((a, b)) = map.remove_entry(&k) { sv::check(*a.0 == *k.0, "removed-key"); sv::obs(*b as u64) } sv::cover("remove entry") }
        3 => { map.clear(); sv::cover("clear") }
        4 => { let e = map.entry(k).or_insert(v); sv::obs(**e as u64); sv::cover("or_insert") }
        5 => { match map.entry(k) { Entry::Vacant(e) => { let k = e.into_key(); sv::obs(*k.0 as u64) } Entry::Occupied(e) => { let (a, b) = e.remove_entry(); sv::obs(*a.0 as u64); sv::obs(*b as u64) } } sv::cover("entry") }
        6 => { let mut it = map.iter(); it.next(); it.next(); drop(it); sv::cover("iterator dropped") }
        7 => { let w = map.witness(&k); sv::obs(nodes(&w) as u64); sv::cover("witness") }
        8 => { if let Some(x) = map.get_mut(&k) { *x = v } sv::cover("get_mut") }
        _ => { let m2: Map<BKey, Box<u8>> = map.iter().map(|(a, b)| (a.clone(), b.clone())).collect(); sv::check(m2.len() == map.len(), "length"); *map = m2; sv::cover("collect") }
    }
}
fn memory_step() {
    let live = sv::live();
    {
        let n = match sv::param("fix") { 1 => sv::param("n"), _ => sv::choice(sv::param("n") + 1) };
        let (total, ops) = crate::shapes::SHAPES[n][sv::choice(crate::shapes::SHAPES[n].len())];
        let keys: Vec<u8> = increasing(total as usize);
        let mut map: Map<BKey, Box<u8>> = Map::new();
        for &o in ops { if o >= 0 { map.insert(BKey(Box::new(keys[o as usize])), Box::new(o as u8)); } else { map.remove(&BKey(Box::new(keys[(-1 - o) as usize]))); } }
        for _ in 0..sv::param("k") { memory_op(&mut map); }
    }
    sv::check(sv::live() == live, "leak");
}
fn memory_history() {
    let live = sv::live();
    {
        let mut map: Map<BKey, Box<u8>> = Map::new();
        for _ in 0..sv::param("k") { memory_op(&mut map); }
    }
    sv::check(sv::live() == live, "leak");
}
/// A large map that is dropped, cleared, drained or replaced.
fn memory_long() {
    let live = sv::live();
    {
        let n = sv::param("n");
        let rule = sv::choice(6);
        let mut map: Map<BKey, Box<u8>> = Map::new();
        for i in 0..n { map.insert(BKey(Box::new(order(rule, i, n) as u8)), Box::new(i as u8)); }
        let left = match sv::choice(4) { 0 => n, 1 => { map.clear(); 0 } 2 => { let m2 = map.iter().map(|(a, b)| (a.clone(), b.clone())).collect(); drop(std::mem::replace(&mut map, m2)); n } _ => { let k = n / 2 + sv::choice(2); for i in 0..k { drop(map.remove(&BKey(Box::new(order((rule + 1) % 5, i, n) as u8)))); } n - k } };
        sv::check(map.len() == left, "length");
        let mut it = map.iter();
        for _ in 0..left / 3 { it.next(); }
        drop(it);
        drop(map.as_hash_tree());
        drop(map.witness_keys());
        let w = map.witness(&BKey(Box::new(sv::u8())));
        sv::obs(nodes(&w) as u64);
        drop(w);
        sv::cover("end");
    }
    sv::check(sv::live() == live, "leak");
}
/// All witness kinds and traversals, dropped in the end, also of a map of sequences.
fn memory_views() {
    let live = sv::live();
    {
        let s: State<Map<Vec<u8>, Seq<u8>>, Vec<u8>, Seq<u8>> = build();
        let (a, b) = (<Vec<u8> as Key>::fresh(), <Vec<u8> as Key>::fresh());
        sv::assume(a <= b);
        match sv::choice(6) {
            0 => drop(s.map.witness(&a)), 1 => drop(s.map.witness_keys()), 2 => drop(s.map.witness_key_range::<Vec<u8>, Vec<u8>>(&a, &b)),
            3 => drop(s.map.witness_value_range::<Vec<u8>, Vec<u8>>(&a, &b)), 4 => drop(s.map.witness_keys_with_prefix(&a[..])),
            _ => { let mut n = 0; s.map.as_tree().for_each(|_, v| n += v.len()); sv::obs(n as u64) }
        }
        sv::cover("end");
    }
    sv::check(sv::live() == live, "leak");
}

// ---------- C10 ----------
fn iteration<K: Key>() {
    let mut s: State<Map<K, u8>, K, u8> = build();
    for _ in 0..sv::param("k") { if sv::choice(2) == 0 { let (k, v) = (K::fresh(), sv::u8()); s.map.insert(k.clone(), v); m_insert(&mut s.m, k, v); } else { let k = K::fresh(); s.map.remove(&k); m_remove(&mut s.m, &k); } }
    let n = s.m.len();
    let mut it = s.map.iter();
    for i in 0..n {
        sv::check(it.size_hint() == (n - i, Some(n - i)), "size-hint");
        match it.next() { Some((k, v)) => { sv::check(eqk(k, &s.m[i].0), "order"); sv::check(*v == s.m[i].1, "value"); if i > 0 { sv::check(s.m[i - 1].0 < *k, "increasing") } } None => sv::fail("ended-early") }
    }
    for _ in 0..3 { sv::check(it.size_hint() == (0, Some(0)), "size-hint"); sv::check(it.next().is_none(), "after-the-end"); }
    let mut i = 0;
    s.map.as_tree().for_each(|k, v| { if i >= n { sv::fail("for-each") } sv::check(eqk(k, &s.m[i].0), "for-each"); sv::check(*v == s.m[i].1, "for-each"); i += 1; });
    sv::check(i == n, "for-each");
    sv::obs(n as u64);
    if n == 0 { sv::cover("empty") } else { sv::cover("entries") }
}

/// The other ways to go through an iterator, from any point of it.
fn adaptors() {
    let s: State<Map<u8, u8>, u8, u8> = build();
    let n = s.m.len();
    let mut it = s.map.iter();
    let at = sv::choice(n + 2);
    for _ in 0..at { it.next(); }
    let rest = &s.m[at.min(n)..];
    let is = |x: Option<(&u8, &u8)>, i: usize| match (x, rest.get(i)) { (None, None) => {} (Some((k, v)), Some(e)) => sv::check((*k == e.0) & (*v == e.1), "adaptor"), _ => sv::fail("adaptor") };
    match sv::choice(9) {
        0 => { let k = sv::choice(n + 2); is(it.nth(k), k); is(it.next(), k + 1) }
        1 => sv::check(it.count() == rest.len(), "count"),
        2 => match it.last() { Some((k, v)) => { let Some(e) = rest.last() else { sv::fail("last") }; sv::check((*k == e.0) & (*v == e.1), "last") } None => sv::check(rest.is_empty(), "last") },
        3 => { let k = sv::choice(n + 1); let mut i = k; for e in it.skip(k) { is(Some(e), i); i += 1 } sv::check(i >= rest.len(), "adaptor") }
        4 => { let k = 1 + sv::choice(3); let mut i = 0; for e in it.step_by(k) { is(Some(e), i); i += k } sv::check(i >= rest.len(), "adaptor") }
        5 => { let k = it.fold(0, |i, e| { is(Some(e), i); i + 1 }); sv::check(k == rest.len(), "fold") }
        6 => { let k = sv::choice(n + 1); let mut i = 0; for e in it.by_ref().take(k) { is(Some(e), i); i += 1 } sv::check(i == k.min(rest.len()), "adaptor"); is(it.next(), i) }
        7 => { let v: Vec<_> = it.collect(); sv::check(v.len() == rest.len(), "collect"); for (i, e) in v.into_iter().enumerate() { is(Some(e), i) } }
        _ => { let k = sv::u8(); let x = it.find(|e| *e.0 >= k); let i = rest.iter().position(|e| e.0 >= k).unwrap_or(rest.len()); is(x, i); if i < rest.len() { is(it.next(), i + 1) } }
    }
    // two iterators at once do not disturb each other
    let (mut a, mut b) = (s.map.iter(), s.map.iter());
    b.next();
    let x = a.next().map(|e| *e.0);
    sv::check(x == s.m.first().map(|e| e.0), "two-iterators");
    sv::check(b.next().map(|e| *e.0) == s.m.get(1).map(|e| e.0), "two-iterators");
    sv::cover("end");
}

// ---------- C11 ----------
/// Every operation of the entry API, compared with the dictionary. Returns whether the contents may have changed.
fn entry_op<K: Key, V: Val>(t: &mut RbTree<K, V>, m: &mut M<K, V>, k: K, v: V) -> bool {
    let at = place(m, &k);
    let old = match at { At::Key(i) => Some(m[i].1.clone()), _ => None };
    let e = t.entry(k.clone());
    sv::check(eql(e.key(), &k), "entry-key");
    match sv::choice(8) {
        0 => {
            match e {
                Entry::Vacant(e) => { if old.is_some() { sv::fail("vacant-though-present") } sv::check(eql(e.key(), &k), "entry-key"); sv::check(e.insert(v.clone()).same(&v), "vacant-insert"); m_insert(m, k, v); }
                Entry::Occupied(mut e) => {
                    let Some(o) = &old else { sv::fail("occupied-though-absent") };
                    sv::check(eql(e.key(), &k), "entry-key");
                    sv::check(e.get().same(o), "occupied-get");
                    sv::check(e.get_mut().same(o), "occupied-get-mut");
                    sv::check(e.into_mut().same(o), "occupied-into-mut");
                }
            }
            sv::cover("insert into vacant");
            old.is_none()
        }
        1 => {
            let was = old.is_some();
            match e {
                Entry::Vacant(e) => { if was { sv::fail("vacant-though-present") } sv::check(eqk(&e.into_key(), &k), "into-key") }
                Entry::Occupied(e) => { let Some(o) = &old else { sv::fail("occupied-though-absent") }; sv::check(e.remove().same(o), "occupied-remove"); m_remove(m, &k); }
            }
            sv::cover("remove");
            was
        }
        2 => {
            let was = old.is_some();
            match e {
                Entry::Vacant(_) => if was { sv::fail("vacant-though-present") },
                Entry::Occupied(e) => { let Some(o) = &old else { sv::fail("occupied-though-absent") }; let (a, b) = e.remove_entry(); let c = m_remove(m, &k).unwrap(); sv::check(eqk(&a, &c.0), "remove-entry-key"); sv::check(b.same(o), "remove-entry-value"); }
            }
            sv::cover("remove entry");
            was
        }
        3 => {
            let mut calls = 0;
            let e = e.and_modify(|x| { calls += 1; if let Some(o) = &old { sv::check(x.same(o), "and-modify-argument") } *x = v.clone(); });
            sv::check(calls == old.is_some() as usize, "and-modify-calls");
            sv::check(matches!(e, Entry::Occupied(_)) == old.is_some(), "and-modify-kind");
            if let Entry::Occupied(e) = &e { sv::check(e.get().same(&v), "and-modify-value") }
            drop(e);
            if old.is_some() { m_insert(m, k, v); }
            sv::cover("and_modify");
            old.is_some()
        }
        4 => { let r = e.or_insert(v.clone()); sv::check(r.same(old.as_ref().unwrap_or(&v)), "or-insert"); if old.is_none() { m_insert(m, k, v); } sv::cover("or_insert"); old.is_none() }
        5 => {
            let mut calls = 0;
            let r = e.or_insert_with(|| { calls += 1; v.clone() });
            sv::check(r.same(old.as_ref().unwrap_or(&v)), "or-insert-with");
            sv::check(calls == old.is_none() as usize, "or-insert-with-calls");
            if old.is_none() { m_insert(m, k, v); }
            sv::cover("or_insert_with");
            old.is_none()
        }
        6 => {
            let mut calls = 0;
            let r = e.or_insert_with_key(|x| { calls += 1; sv::check(eqk(x, &k), "or-insert-with-key-argument"); v.clone() });
            sv::check(r.same(old.as_ref().unwrap_or(&v)), "or-insert-with-key");
            sv::check(calls == old.is_none() as usize, "or-insert-with-key-calls");
            if old.is_none() { m_insert(m, k, v); }
            sv::cover("or_insert_with_key");
            old.is_none()
        }
        _ => {
            // modified if present, inserted otherwise
            let w = V::fresh();
            let e = e.and_modify(|x| *x = w.clone());
            let r = e.or_insert(v.clone());
            let now = if old.is_some() { w } else { v };
            sv::check(r.same(&now), "modify-or-insert");
            m_insert(m, k, now);
            sv::cover("and_modify or_insert");
            true
        }
    }
}
fn entries<K: Key, V: Val>() {
    let mut s: State<RbTree<K, V>, K, V> = build();
    for _ in 0..sv::param("k") {
        let before = s.map.root_hash();
        let changed = entry_op(&mut s.map, &mut s.m, K::fresh(), V::fresh());
        contents(&s.map, &s.m);
        committed(&s.map, &s.m, "stale-root-hash");
        if !changed { sv::check(same(&before, &s.map.root_hash()), "no-op-changed-hash") }
    }
    sv::obs_bytes(&s.map.root_hash());
}
fn or_default() {
    let mut s: State<Map<u8, Vec<u8>>, u8, Vec<u8>> = build();
    let k = sv::u8();
    let old = m_get(&s.m, &k).cloned();
    let r = s.map.entry(k).or_default();
    match &old { Some(o) => sv::check(sv::eq(r, o), "or-default"), None => sv::check(r.is_empty(), "or-default") }
    if old.is_none() { m_insert(&mut s.m, k, vec![]); }
    contents(s.map.as_tree(), &s.m);
    committed(s.map.as_tree(), &s.m, "stale-root-hash");
    sv::cover("end");
}

// ---------- C16 ----------
fn two_maps<K: Key, V: Val>() {
    let a: State<Map<K, V>, K, V> = build();
    let b: State<Map<K, V>, K, V> = build();
    let eq = same(&a.map.root_hash(), &b.map.root_hash());
    if eq {
        sv::check(a.m.len() == b.m.len(), "same-hash-different-size");
        for ((k, v), (l, w)) in a.m.iter().zip(&b.m) { sv::check(eqk(k, l), "same-hash-different-key"); sv::check(v.same(w), "same-hash-different-value") }
        sv::cover("equal");
    } else { sv::cover("different") }
}
/// Long keys and values that differ in one byte, anywhere.
fn long_entries() {
    let n = [31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4096, 4097, 5000][sv::choice(15)];
    let d = sv::vec(n);
    let change = |d: &Vec<u8>| { let mut e = d.clone(); let i = [0, n / 2, n - 1][sv::choice(3)]; e[i] = sv::u8(); let eq = e[i] == d[i]; (e, eq) };
    let (e, eq) = change(&d);
    let (mut a, mut b): (Map<Vec<u8>, Vec<u8>>, Map<Vec<u8>, Vec<u8>>) = (Map::new(), Map::new());
    let v = sv::vec(2);
    match sv::choice(3) {
        0 => { a.insert(d.clone(), v.clone()); b.insert(e, v); sv::check(same(&a.root_hash(), &b.root_hash()) == eq, "same-hash-different-key") }
        1 => { a.insert(v.clone(), d.clone()); b.insert(v, e); sv::check(same(&a.root_hash(), &b.root_hash()) == eq, "same-hash-different-value") }
        _ => { let (s, t): (Seq<Vec<u8>>, Seq<Vec<u8>>) = (vec![v.clone(), d].into(), vec![v, e].into()); sv::check(same(&s.root_hash(), &t.root_hash()) == eq, "same-hash-different-item") }
    }
    // and a longer one
    let mut f = a.iter().next().map(|(k, _)| k.clone()).unwrap_or_default();
    let mut c: Map<Vec<u8>, Vec<u8>> = Map::new();
    f.push(sv::u8());
    if let Some((_, v)) = a.iter().next() { c.insert(f, v.clone()); sv::check(!same(&a.root_hash(), &c.root_hash()), "same-hash-different-key") }
    sv::cover("end");
}
/// Large maps that differ in one entry, or in none but their history.
fn large_maps() {
    let n = sv::param("n");
    let a: State<Map<u16, u8>, u16, u8> = build_n(n);
    let mut b: Map<u16, u8> = Map::new();
    for (k, v) in a.m.iter() { b.insert(*k, *v); }
    let i = [0, n / 3, n / 2, n - 1][sv::choice(4)];
    let (k, v) = a.m[i];
    match sv::choice(4) {
        0 => { let w = sv::u8(); b.insert(k, w); if same(&a.map.root_hash(), &b.root_hash()) { sv::check(v == w, "same-hash-different-value") } }
        1 => { b.remove(&k); sv::check(!same(&a.map.root_hash(), &b.root_hash()), "same-hash-different-size") }
        2 => { b.remove(&k); let l = sv::u16(); sv::assume(l != k); b.insert(l, v); sv::check(!same(&a.map.root_hash(), &b.root_hash()), "same-hash-different-key") }
        _ => { b.insert(sv::u16(), v); if same(&a.map.root_hash(), &b.root_hash()) { sv::check(b.len() == n, "same-hash-different-size") } }
    }
    sv::cover("end");
}
trait SeqItem: AsHashTree + Clone { fn fresh() -> Self; fn bytes(&self) -> Vec<u8>; }
impl SeqItem for u8 { fn fresh() -> Self { sv::u8() } fn bytes(&self) -> Vec<u8> { vec![*self] } }
impl SeqItem for Vec<u8> { fn fresh() -> Self { let n = sv::choice(sv::param("len") + 1); sv::vec(n) } fn bytes(&self) -> Vec<u8> { self.clone() } }
impl SeqItem for String { fn fresh() -> Self { text(sv::choice(sv::param("len") + 1)) } fn bytes(&self) -> Vec<u8> { self.as_bytes().to_vec() } }
fn two_seqs<T: SeqItem>() {
    let mk = || { let n = sv::choice(sv::param("n") + 1); let v: Vec<T> = (0..n).map(|_| T::fresh()).collect(); v };
    let (a, b) = (mk(), mk());
    let grown = { let mut s = Seq::new(); for x in &a { s.append(x.clone()) } s };
    let s = if sv::choice(2) == 0 { Seq::from(b.clone()) } else { let mut s = Seq::new(); for x in &b { s.append(x.clone()) } s };
    if same(&grown.root_hash(), &s.root_hash()) {
        sv::check(a.len() == b.len(), "same-hash-different-length");
        for (x, y) in a.iter().zip(&b) { let (x, y) = (x.bytes(), y.bytes()); sv::check(x.len() == y.len() && sv::eq(&x, &y), "same-hash-different-item") }
        sv::cover("equal");
    } else { sv::cover("different") }
}

// ---------- C25 ----------
fn deep() {
    let mut s: State<Map<u8, Seq<u8>>, u8, Seq<u8>> = build();
    let look = sv::choice(2) == 1;
    let mut m: M<u8, Vec<u8>> = s.m.iter().map(|(k, v)| (*k, v.as_vec().clone())).collect();
    for _ in 0..sv::param("k") {
        let (k, v) = (sv::u8(), sv::u8());
        if look { peek(&s.map) }
        s.map.append_deep(k, v);
        match place(&m, &k) { At::Key(i) => { m[i].1.push(v); sv::cover("append") } At::Gap(g) => { m.insert(g, (k, vec![v])); sv::cover("new sequence") } }
        sv::check(s.map.len_deep(&k) == m[match place(&m, &k) { At::Key(i) => i, _ => 0 }].1.len(), "deep-length");
    }
    let q = sv::u8();
    let n = match place(&m, &q) { At::Key(i) => m[i].1.len(), _ => 0 };
    sv::check(s.map.len_deep(&q) == n, "deep-length");
    sv::check(s.map.len() == m.len(), "length");
    let mm: M<u8, Seq<u8>> = m.iter().map(|(k, v)| (*k, Seq::from(v.clone()))).collect();
    contents(s.map.as_tree(), &mm);
    committed(s.map.as_tree(), &mm, "stale-root-hash");
    sv::obs_bytes(&s.map.root_hash());
}
/// A map of maps, modified on the inside through the outer map.
fn inner_map() {
    let n = sv::param("n");
    let outer_keys = increasing::<u8>(3);
    let at = sv::choice(3);
    let mut inner: State<Map<u8, u8>, u8, u8> = build_n(n);
    let mut outer: RbTree<u8, Map<u8, u8>> = RbTree::new();
    let mut others: Vec<(u8, u8)> = vec![];
    for i in [1, 2, 0] { if i == at { outer.insert(outer_keys[i], std::mem::take(&mut inner.map)); } else { let e = (sv::u8(), sv::u8()); let mut m = Map::new(); m.insert(e.0, e.1); others.push(e); outer.insert(outer_keys[i], m); } }
    let (q, v) = (sv::u8(), sv::u8());
    let before = outer.root_hash();
    sv::check(same(&before, &rebuild(&outer.as_hash_tree())), "stale-outer-hash");
    match sv::choice(4) {
        0 => { outer.modify(&outer_keys[at], |m| { m.insert(q, v); }); m_insert(&mut inner.m, q, v); sv::cover("insert") }
        1 => { outer.modify(&outer_keys[at], |m| { m.remove(&q); }); m_remove(&mut inner.m, &q); sv::cover("remove") }
        2 => { outer.modify(&outer_keys[at], |m| m.clear()); inner.m.clear(); sv::cover("clear") }
        _ => { let e = outer.entry(outer_keys[at]); e.and_modify(|m| { m.insert(q, v); }); m_insert(&mut inner.m, q, v); sv::cover("entry") }
    }
    let now = outer.get(&outer_keys[at]).unwrap();
    contents(now.as_tree(), &inner.m);
    committed(now.as_tree(), &inner.m, "stale-inner-hash");
    sv::check(same(&rebuild(&outer.as_hash_tree()), &outer.root_hash()), "stale-outer-hash");
    // the inner witness sits below the outer key and ties in with the outer root
    let p = sv::u8();
    let w = outer.nested_witness(&outer_keys[at], |m| m.witness(&p));
    sv::check(same(&rebuild(&w), &outer.root_hash()), "nested-reconstruct");
    let mut f = vec![];
    flatten(&w, &mut f);
    let mut found = false;
    for t in f {
        if let HashTree::Labeled(l, sub) = t {
            if sv::eq(l, &[outer_keys[at]]) { found = true; sv::check(**sub == now.witness(&p), "nested-content") }
        }
    }
    sv::check(found, "nested-missing");
    sv::obs_bytes(&outer.root_hash());
}
/// Whatever the caller supplies for the value is what the witness has under the key, and nothing else of the map.
fn nested_any() {
    let s: State<RbTree<u8, Seq<u8>>, u8, Seq<u8>> = build();
    let n = s.m.len();
    sv::assume(n > 0);
    let i = sv::choice(n);
    let (a, b): (Hash, Hash) = (if sv::choice(2) == 0 { s.m[i].1.hash() } else { leaf_h(&sv::vec(1)) }, leaf_h(&sv::vec(2)));
    let x = sv::vec(sv::choice(3));
    let kind = sv::choice(10);
    let mk = || -> HashTree<'static> {
        let (p, q, l) = (HashTree::Pruned(a), HashTree::Pruned(b), || HashTree::Leaf(x.clone().into()));
        match kind {
            0 => HashTree::Empty, 1 => p, 2 => l(), 3 => fork(p, q), 4 => fork(p, l()), 5 => fork(HashTree::Empty, q), 6 => labeled_owned(&x, p), 7 => fork(labeled_owned(&x, p), labeled_owned(&[7], q)),
            8 => fork(fork(p, q), HashTree::Empty), _ => labeled_owned(&x, labeled_owned(&[1], l())),
        }
    };
    let w = s.map.nested_witness(&s.m[i].0, |v| { sv::check(v.same(&s.m[i].1), "nested-argument"); mk() });
    // the path of forks to the entry, digests beside it
    let mut f = vec![];
    flatten(&w, &mut f);
    let mut found = 0;
    for t in f { match t { HashTree::Pruned(_) => {} HashTree::Labeled(l, sub) if sv::eq(l, &[s.m[i].0]) => { found += 1; sv::check(**sub == mk(), "nested-content") } _ => sv::fail("nested-more-shown") } }
    sv::check(found == 1, "nested-missing");
    // it reconstructs to the root exactly if the supplied tree does to the value
    let eq = same(&rebuild(&mk()), &s.m[i].1.hash());
    sv::check(same(&rebuild(&w), &s.map.root_hash()) == eq, "nested-reconstruct");
    sv::check(same(&w.reconstruct(), &rebuild(&w)), "nested-reconstruct");
    sv::cover(if eq { "the value's own hash" } else { "another hash" });
}
fn labeled_owned(l: &[u8], t: HashTree<'static>) -> HashTree<'static> { HashTree::Labeled(l.to_vec().into(), Box::new(t)) }
/// Maps in maps in maps, changed on the inside through all of them.
fn nested_three() {
    type In = Map<u8, u8>;
    type Mid = RbTree<u8, In>;
    let ks = increasing::<u8>(2);
    let mut inner: State<In, u8, u8> = build();
    let mut outer: RbTree<u8, Mid> = RbTree::new();
    let (at, at2) = (sv::choice(2), sv::choice(2));
    let js = increasing::<u8>(2);
    let one = |v: u8| { let mut m = In::new(); m.insert(v, v); m };
    let mut mid = Mid::new();
    mid.insert(js[1 - at2], one(9));
    mid.insert(js[at2], std::mem::take(&mut inner.map));
    let mut other = Mid::new();
    other.insert(4, one(5));
    outer.insert(ks[at], mid);
    outer.insert(ks[1 - at], other);
    let (q, v) = (sv::u8(), sv::u8());
    let went = match sv::choice(3) {
        0 => { outer.modify(&ks[at], |m| m.modify(&js[at2], |i| { i.insert(q, v); }).is_some()) }
        1 => { outer.modify(&ks[at], |m| { let was = m.get(&js[at2]).is_some(); m.entry(js[at2]).and_modify(|i| { i.insert(q, v); }); was }) }
        _ => { outer.modify(&ks[at], |m| { let mut i = In::new(); for (k, x) in m.get(&js[at2]).unwrap().iter() { i.insert(*k, *x); } i.insert(q, v); m.insert(js[at2], i).0.is_some() }) }
    };
    sv::check(went == Some(true), "modify-result");
    m_insert(&mut inner.m, q, v);
    let now = outer.get(&ks[at]).and_then(|m| m.get(&js[at2])).unwrap();
    contents(now.as_tree(), &inner.m);
    let root = outer.root_hash();
    sv::check(same(&rebuild(&outer.as_hash_tree()), &root), "stale-outer-hash");
    // a witness down to the innermost entry
    let p = sv::u8();
    let w = outer.nested_witness(&ks[at], |m| m.nested_witness(&js[at2], |i| i.witness(&p)));
    sv::check(same(&rebuild(&w), &root), "nested-reconstruct");
    let under = |t: &HashTree<'static>, k: u8| -> Option<HashTree<'static>> { let mut f = vec![]; flatten(t, &mut f); f.into_iter().find_map(|t| match t { HashTree::Labeled(l, s) if sv::eq(l, &[k]) => Some(owned(s)), _ => None }) };
    let w: HashTree<'static> = owned(&w);
    let Some(x) = under(&w, ks[at]) else { sv::fail("nested-missing") };
    let Some(x) = under(&x, js[at2]) else { sv::fail("nested-missing") };
    sv::check(x == owned(&now.witness(&p)), "nested-content");
    sv::cover("end");
}
fn owned(t: &HashTree) -> HashTree<'static> {
    match t { HashTree::Empty => HashTree::Empty, HashTree::Pruned(h) => HashTree::Pruned(*h), HashTree::Leaf(d) => HashTree::Leaf(d.to_vec().into()), HashTree::Labeled(l, s) => labeled_owned(l, owned(s)), HashTree::Fork(f) => fork(owned(&f.0), owned(&f.1)) }
}
fn nested_absent() {
    let s: State<Map<u8, Seq<u8>>, u8, Seq<u8>> = build();
    let q = sv::u8();
    let mut called = 0;
    let c = std::cell::Cell::new(0);
    let w = s.map.as_tree().nested_witness(&q, |v| { c.set(c.get() + 1); HashTree::Pruned(v.root_hash()) });
    called += c.get();
    sv::check(called == m_get(&s.m, &q).is_some() as i32, "nested-calls");
    sv::check(same(&rebuild(&w), &s.map.root_hash()), "nested-reconstruct");
    sv::cover("end");
}

harness! {
    fn c06_u8() { dict_step::<u8, u8>() }
    fn c06_vec() { dict_step::<Vec<u8>, Vec<u8>>() }
    fn c06_string() { dict_step::<String, u8>() }
    fn c06_pair() { dict_step::<Comp, Box<u8>>() }
    fn c06_tag() { dict_step::<Tag, u8>() }
    fn c06_long() { long_dict::<u16, u8>() }
    fn c06_long_vec() { long_dict::<Vec<u8>, Vec<u8>>() }
    fn c06_history() { dict_history::<u8>() }
    fn c06_ranked() { dict_ranked::<u8>() }
    fn c06_drain() { drain::<u8>() }
    fn c06_revived() { revived::<u8, u8>() }
    fn c06_collect_loose() { collect_loose() }
    fn c06_huge() { huge() }
    fn c06_collect() {
        // duplicates and any order are successive inserts
        let n = sv::choice(sv::param("n") + 1);
        let v: Vec<(u8, u8)> = (0..n).map(|_| (sv::u8(), sv::u8())).collect();
        let map: Map<u8, u8> = v.iter().copied().collect();
        let mut m = vec![];
        for (k, x) in v { m_insert(&mut m, k, x); }
        contents(map.as_tree(), &m);
        committed(map.as_tree(), &m, "stale-root-hash");
        sv::cover("end");
    }

    fn c07_u8() { hash_step::<u8, u8>() }
    fn c07_vec() { hash_step::<Vec<u8>, Vec<u8>>() }
    fn c07_seq() { hash_step::<u8, Seq<u8>>() }
    fn c07_history() { hash_history::<u8>() }
    fn c07_ranked() { dict_ranked::<u8>() }
    fn c07_drain() { drain::<u8>() }
    fn c06_peeked() { peeked::<u8, u8>() }
    fn c07_peeked() { peeked::<u8, u8>() }
    fn c07_peeked_seq() { peeked::<u8, Seq<u8>>() }
    fn c07_long() { long_dict::<u16, u8>() }
    fn c07_huge() { huge() }
    fn c07_prefix() { modify_prefix::<Pair, u8, u8>(lead) }
    fn c07_deep() { deep() }
    fn c07_reference_write() { reference_write(0) }
    fn c07_tree_reference_write() { tree_reference_write() }

    fn c08_long() { long_history() }
    fn c08_filled() { filled() }
    fn c08_short() { short_history() }
    fn c08_shapes() {
        // one or two more operations on every shape
        let mut s: State<RbTree<u16, u8>, u16, u8> = build();
        for _ in 0..sv::param("k") { if sv::choice(2) == 0 { s.map.insert(sv::u16(), 1); } else { s.map.delete(&sv::u16()); } shallow(&s.map); }
        sv::cover("end");
    }

    fn c09_step() { memory_step() }
    fn c09_history() { memory_history() }
    fn c09_long() { memory_long() }
    fn c09_views() { memory_views() }

    fn c10_u8() { iteration::<u8>() }
    fn c10_vec() { iteration::<Vec<u8>>() }
    fn c10_tag() { iteration::<Tag>() }
    fn c10_adaptors() { adaptors() }
    fn c10_huge() { huge() }
    fn c10_long() { long_dict::<u16, u8>() }

    fn c11_u8() { entries::<u8, u8>() }
    fn c11_tag() { entries::<Tag, u8>() }
    fn c11_vec() { entries::<Vec<u8>, Vec<u8>>() }
    fn c11_default() { or_default() }
    fn c11_reference_write() { reference_write(1) }

    fn c12_pair() { modify_prefix::<Pair, u8, u8>(lead) }
    fn c12_comp() { modify_prefix::<Comp, u8, u8>(lead) }
    fn c12_vec() { modify_prefix::<Vec<u8>, [u8], Vec<u8>>(byte_prefix) }
    fn c12_box() { modify_prefix::<Box<[u8]>, [u8], Vec<u8>>(byte_prefix) }
    fn c12_arr() { modify_prefix::<[u8; 2], [u8], Vec<u8>>(byte_prefix) }
    fn c12_string() { modify_prefix::<String, str, String>(text_prefix) }

    fn c16_long() { long_entries() }
    fn c16_large() { large_maps() }
    fn c16_maps() { two_maps::<u8, u8>() }
    fn c16_maps_vec() { two_maps::<Vec<u8>, u8>() }
    fn c16_maps_seq() { two_maps::<u8, Seq<u8>>() }
    fn c16_seq_u8() { two_seqs::<u8>() }
    fn c16_seq_vec() { two_seqs::<Vec<u8>>() }
    fn c16_seq_string() { two_seqs::<String>() }

    fn c25_deep() { deep() }
    fn c25_inner() { inner_map() }
    fn c25_any() { nested_any() }
    fn c25_three() { nested_three() }
    fn c25_absent() { nested_absent() }
}
