//! Symbolic map contents, the reference hash tree semantics, and reading of witnesses.
use crate::shapes::SHAPES;
use crate::sv;
use certified_vars::label::{Label, Prefix};
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Hash, HashTree, Map, Seq};
use sha2::{Digest, Sha256};
use std::borrow::{Borrow, Cow};

#[macro_export]
macro_rules! harness { ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
    $($(#[$m])* #[no_mangle] #[inline(never)] pub fn $n() $b)*
    pub const TABLE: &[(&str, fn())] = &[$((stringify!($n), $n as fn())),*];
} }

// ---------- reference semantics of the interface specification ----------
pub fn h(sep: &str, parts: &[&[u8]]) -> Hash {
    let mut d = Sha256::new();
    d.update([sep.len() as u8]);
    d.update(sep.as_bytes());
    for p in parts { d.update(p) }
    d.finalize().into()
}
pub fn leaf_h(x: &[u8]) -> Hash { h("ic-hashtree-leaf", &[x]) }
pub fn fork_h(a: &Hash, b: &Hash) -> Hash { h("ic-hashtree-fork", &[a, b]) }
pub fn labeled_h(l: &[u8], t: &Hash) -> Hash { h("ic-hashtree-labeled", &[l, t]) }
pub fn rebuild(t: &HashTree) -> Hash {
    match t {
        HashTree::Empty => h("ic-hashtree-empty", &[]),
        HashTree::Fork(f) => fork_h(&rebuild(&f.0), &rebuild(&f.1)),
        HashTree::Labeled(l, t) => labeled_h(l, &rebuild(t)),
        HashTree::Leaf(d) => leaf_h(d),
        HashTree::Pruned(h) => *h,
    }
}
pub fn nodes(t: &HashTree) -> usize {
    match t { HashTree::Fork(f) => 1 + nodes(&f.0) + nodes(&f.1), HashTree::Labeled(_, t) => 1 + nodes(t), _ => 1 }
}
/// Longest chain of forks.
pub fn forks(t: &HashTree) -> usize { match t { HashTree::Fork(f) => 1 + forks(&f.0).max(forks(&f.1)), _ => 0 } }
/// flatten_forks of the specification: the subtrees below the forks, empty ones left out.
pub fn flatten<'t, 'a>(t: &'t HashTree<'a>, out: &mut Vec<&'t HashTree<'a>>) {
    match t { HashTree::Empty => {} HashTree::Fork(f) => { flatten(&f.0, out); flatten(&f.1, out) } t => out.push(t) }
}
pub fn same(a: &Hash, b: &Hash) -> bool { sv::eq(a, b) }

pub fn trees_equal(a: &HashTree, b: &HashTree) -> bool {
    match (a, b) {
        (HashTree::Empty, HashTree::Empty) => true,
        (HashTree::Fork(x), HashTree::Fork(y)) => trees_equal(&x.0, &y.0) && trees_equal(&x.1, &y.1),
        (HashTree::Labeled(l, x), HashTree::Labeled(m, y)) => sv::eq(l, m) && trees_equal(x, y),
        (HashTree::Leaf(x), HashTree::Leaf(y)) => sv::eq(x, y),
        (HashTree::Pruned(x), HashTree::Pruned(y)) => same(x, y),
        _ => false,
    }
}

// ---------- keys and values ----------
pub trait Key: Label + Ord + Clone + 'static {
    fn fresh() -> Self;
    /// The label it has.
    fn bytes(&self) -> Vec<u8>;
    /// What tells it from other keys, equal ones included.
    fn ident(&self) -> Vec<u8> { self.bytes() }
    /// Keys in increasing order, for large maps; between any two there is another key.
    fn nth(_: usize) -> Self { unreachable!() }
}
impl Key for u8 { fn fresh() -> u8 { sv::u8() } fn bytes(&self) -> Vec<u8> { vec![*self] } fn nth(i: usize) -> u8 { 2 * i as u8 + 1 } }
impl Key for u16 { fn fresh() -> u16 { sv::u16() } fn bytes(&self) -> Vec<u8> { vec![(*self >> 8) as u8, *self as u8] } fn nth(i: usize) -> u16 { 67 * i as u16 + 200 } }
impl Key for u64 { fn fresh() -> u64 { sv::u64() } fn bytes(&self) -> Vec<u8> { self.to_be_bytes().to_vec() } }
impl Key for [u8; 2] { fn fresh() -> Self { sv::bytes() } fn bytes(&self) -> Vec<u8> { self.to_vec() } }
impl Key for Vec<u8> {
    fn fresh() -> Self { let n = sv::choice(sv::param("len") + 1); sv::vec(n) }
    fn bytes(&self) -> Vec<u8> { self.clone() }
    /// Chains of a key and longer ones that start with it.
    fn nth(i: usize) -> Self { let g = (i / 6) as u8 * 3 + 1; match i % 6 { 0 => vec![g], 1 => vec![g, 0], 2 => vec![g, 0, 0], 3 => vec![g, 9], 4 => vec![g, 9, 255], _ => vec![g + 1, 255] } }
}
impl Key for Box<[u8]> { fn fresh() -> Self { <Vec<u8> as Key>::fresh().into() } fn bytes(&self) -> Vec<u8> { self.to_vec() } }
/// Text of n bytes: ASCII characters, or starting with a character of two bytes.
pub fn text(n: usize) -> String {
    let v = sv::vec(n);
    let mut i = 0;
    if n >= 2 && sv::choice(2) == 1 { two(&v[0..2]); i = 2 }
    for b in &v[i..] { sv::assume(*b < 128) }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Any character of two bytes.
fn two(b: &[u8]) { sv::assume((b[0] >= 0xc2) & (b[0] <= 0xdf)); sv::assume((b[1] >= 0x80) & (b[1] <= 0xbf)) }
/// A character of that many bytes (of four: of planes 1 to 3).
pub fn wide_char(n: usize) -> String {
    let v = sv::vec(n);
    match n { 1 => sv::assume(v[0] < 128), 2 => two(&v), 3 => sv::assume((v[0] >= 0xe1) & (v[0] <= 0xec)), _ => { sv::assume(v[0] == 0xf0); sv::assume((v[1] >= 0x90) & (v[1] <= 0xbf)) } }
    for b in v.iter().skip(1) { sv::assume((*b >= 0x80) & (*b <= 0xbf)) }
    unsafe { String::from_utf8_unchecked(v) }
}
impl Key for String {
    fn fresh() -> Self { let n = sv::choice(sv::param("len") + 1); text(n) }
    fn bytes(&self) -> Vec<u8> { self.as_bytes().to_vec() }
    fn nth(i: usize) -> Self { String::from_utf8(<Vec<u8> as Key>::nth(i).iter().map(|b| b / 2).collect()).unwrap() }
}
/// A key whose leading component is its prefix, with the trait's default prefix test.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Comp { pub a: u8, pub b: u8 }
impl Label for Comp { fn as_label(&self) -> Cow<[u8]> { Cow::Owned(vec![self.a, self.b]) } }
impl Borrow<u8> for Comp { fn borrow(&self) -> &u8 { &self.a } }
impl Prefix<u8> for Comp {}
impl Key for Comp { fn fresh() -> Self { Comp { a: sv::u8(), b: sv::u8() } } fn bytes(&self) -> Vec<u8> { vec![self.a, self.b] } fn nth(i: usize) -> Self { let (a, b) = composite(i); Comp { a, b } } }
/// Groups of one to seven entries with the same first component.
fn composite(i: usize) -> (u8, u8) { let (mut g, mut i) = (0, i); loop { let n = 1 + g * 3 % 7; if i < n { return (2 * g as u8 + 1, 30 * i as u8 + 3); } i -= n; g += 1; } }
/// A key of which only a part is compared and exposed.
#[derive(Clone, Debug)]
pub struct Tag { pub k: u8, pub t: u8 }
impl PartialEq for Tag { fn eq(&self, o: &Self) -> bool { self.k == o.k } }
impl Eq for Tag {}
impl PartialOrd for Tag { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Tag { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.k.cmp(&o.k) } }
impl Label for Tag { fn as_label(&self) -> Cow<[u8]> { Cow::Owned(vec![self.k]) } }
impl Key for Tag { fn fresh() -> Self { Tag { k: sv::u8(), t: sv::u8() } } fn bytes(&self) -> Vec<u8> { vec![self.k] } fn ident(&self) -> Vec<u8> { vec![self.k, self.t] } fn nth(i: usize) -> Self { Tag { k: 2 * i as u8 + 1, t: i as u8 } } }
/// The same with a comparison on the bytes as one number, so that it stays one solver term.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Pair { pub a: u8, pub b: u8 }
impl Pair { fn n(&self) -> u16 { (self.a as u16) << 8 | self.b as u16 } }
impl PartialOrd for Pair { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Pair { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.n().cmp(&o.n()) } }
impl Label for Pair { fn as_label(&self) -> Cow<[u8]> { Cow::Owned(vec![self.a, self.b]) } }
impl Borrow<u8> for Pair { fn borrow(&self) -> &u8 { &self.a } }
impl Prefix<u8> for Pair {}
impl Key for Pair { fn fresh() -> Self { Pair { a: sv::u8(), b: sv::u8() } } fn bytes(&self) -> Vec<u8> { vec![self.a, self.b] } fn nth(i: usize) -> Self { let (a, b) = composite(i); Pair { a, b } } }

pub trait Val: AsHashTree + Clone + 'static { fn fresh() -> Self; fn same(&self, o: &Self) -> bool; fn hash(&self) -> Hash; /// The leaf content, when the value is one leaf.
    fn leaf(&self) -> Option<Vec<u8>>; }
impl Val for u8 { fn fresh() -> u8 { sv::u8() } fn same(&self, o: &u8) -> bool { self == o } fn hash(&self) -> Hash { leaf_h(&[*self]) } fn leaf(&self) -> Option<Vec<u8>> { Some(vec![*self]) } }
impl Val for Box<u8> { fn fresh() -> Self { Box::new(sv::u8()) } fn same(&self, o: &Self) -> bool { **self == **o } fn hash(&self) -> Hash { leaf_h(&[**self]) } fn leaf(&self) -> Option<Vec<u8>> { Some(vec![**self]) } }
impl Val for Vec<u8> { fn fresh() -> Self { sv::vec(2) } fn same(&self, o: &Self) -> bool { sv::eq(self, o) } fn hash(&self) -> Hash { leaf_h(self) } fn leaf(&self) -> Option<Vec<u8>> { Some(self.clone()) } }
impl Val for Seq<u8> {
    fn fresh() -> Self { let mut s = Seq::new(); for _ in 0..sv::choice(sv::param("seq") + 1) { s.append(sv::u8()) } s }
    fn same(&self, o: &Self) -> bool { self.len() == o.len() && sv::eq(self.as_ref(), o.as_ref()) }
    fn hash(&self) -> Hash { chain(self.as_ref()) }
    fn leaf(&self) -> Option<Vec<u8>> { None }
}
pub fn chain(items: &[u8]) -> Hash {
    let mut c = [0u8; 32];
    for i in items { let mut d = Sha256::new(); d.update(c); d.update(leaf_h(&[*i])); c = d.finalize().into(); }
    c
}

/// n keys in strictly increasing order.
pub fn increasing<K: Key>(n: usize) -> Vec<K> {
    let mut v: Vec<K> = Vec::with_capacity(n);
    for i in 0..n { let k = K::fresh(); if i > 0 { sv::assume(v[i - 1] < k) } v.push(k); }
    v
}

// ---------- maps with symbolic contents ----------
pub trait Dict<K, V>: Sized { fn empty() -> Self; fn put(&mut self, k: K, v: V); fn del(&mut self, k: &K); fn tree(&self) -> &RbTree<K, V> where K: Label + 'static, V: AsHashTree + 'static; }
impl<K: Key, V: Val> Dict<K, V> for Map<K, V> { fn empty() -> Self { Map::new() } fn put(&mut self, k: K, v: V) { self.insert(k, v); } fn del(&mut self, k: &K) { self.remove(k); } fn tree(&self) -> &RbTree<K, V> { self.as_tree() } }
impl<K: Key, V: Val> Dict<K, V> for RbTree<K, V> { fn empty() -> Self { RbTree::new() } fn put(&mut self, k: K, v: V) { self.insert(k, v); } fn del(&mut self, k: &K) { self.delete(k); } fn tree(&self) -> &RbTree<K, V> { self } }

pub struct State<D, K, V> { pub map: D, pub m: Vec<(K, V)> }
/// The i-th of n in one of several orders.
pub fn order(rule: usize, i: usize, n: usize) -> usize {
    match rule { 0 => i, 1 => n - 1 - i, 2 => if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }, 3 => { let j = n - 1 - i; if j % 2 == 0 { j / 2 } else { n - 1 - j / 2 } }
        _ => { let mut s = [31, 37, 23, 7, 1].into_iter().filter(|s| n % s != 0); i * s.next().unwrap_or(1) % n } }
}
/// Large maps: fixed keys and symbolic values, after inserts in one order and removals in another.
pub fn build_big<D: Dict<K, V>, K: Key, V: Val>(n: usize) -> State<D, K, V> {
    let rule = sv::choice(6);
    let total = n + rule * n / 8;
    let mut map = D::empty();
    let mut vals: Vec<Option<V>> = vec![None; total];
    for i in 0..total { let r = order(rule, i, total); let v = V::fresh(); vals[r] = Some(v.clone()); map.put(K::nth(r), v); }
    let mut gone = 0;
    for i in 0..total { if gone < total - n && (rule < 4 || i % 2 == 0) { let r = order((rule + 2) % 5, i, total); vals[r] = None; map.del(&K::nth(r)); gone += 1; } }
    let m = vals.into_iter().enumerate().filter_map(|(i, v)| v.map(|v| (K::nth(i), v))).collect();
    State { map, m }
}
/// Every content of n entries in every tree shape, by a history that ends in that shape.
pub fn build_n<D: Dict<K, V>, K: Key, V: Val>(n: usize) -> State<D, K, V> {
    if n >= SHAPES.len() { return build_big(n); }
    let (total, ops) = SHAPES[n][sv::choice(SHAPES[n].len())];
    let keys: Vec<K> = increasing(total as usize);
    let mut vals: Vec<Option<V>> = vec![None; total as usize];
    let mut map = D::empty();
    for &o in ops {
        if o >= 0 { let v = V::fresh(); vals[o as usize] = Some(v.clone()); map.put(keys[o as usize].clone(), v); }
        else { let r = (-1 - o) as usize; vals[r] = None; map.del(&keys[r]); }
    }
    let m = keys.into_iter().zip(vals).filter_map(|(k, v)| v.map(|v| (k, v))).collect();
    State { map, m }
}
/// The same for every size up to the parameter n.
pub fn build<D: Dict<K, V>, K: Key, V: Val>() -> State<D, K, V> {
    let n = match sv::param("fix") { 1 => sv::param("n"), _ => sv::choice(sv::param("n") + 1) };
    build_n(n)
}

/// Where a key falls among the entries.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum At { Key(usize), Gap(usize) }
pub fn place<K: Ord, V>(m: &[(K, V)], k: &K) -> At {
    for (i, e) in m.iter().enumerate() { match k.cmp(&e.0) { std::cmp::Ordering::Equal => return At::Key(i), std::cmp::Ordering::Less => return At::Gap(i), _ => {} } }
    At::Gap(m.len())
}

// ---------- reading witnesses ----------
/// What a witness says at one place: entry number and its subtree, or something hidden.
pub enum Item<'t, 'a> { Entry(usize, &'t HashTree<'a>), Hidden }
/// The items in order. Fails if a label is not that of an entry, if labels are out of order, or if a bare leaf shows up.
pub fn items<'t, 'a, K: Key, V>(t: &'t HashTree<'a>, m: &[(K, V)], tag: &str) -> Vec<Item<'t, 'a>> {
    let mut f = vec![];
    flatten(t, &mut f);
    let mut out = vec![];
    let mut from = 0;
    for t in f {
        match t {
            HashTree::Labeled(l, s) => {
                let mut at = None;
                for i in from..m.len() { if sv::eq(l, &m[i].0.bytes()) { at = Some(i); break; } }
                match at { Some(i) => { from = i + 1; out.push(Item::Entry(i, s)) } None => sv::fail(tag) }
            }
            HashTree::Pruned(_) => out.push(Item::Hidden),
            _ => sv::fail(tag),
        }
    }
    out
}
/// No claim of absence that a reader may draw from the witness is false: neighbours shown next to each other are
/// neighbours in the map, and a shown key with nothing before (after) it is the first (last).
pub fn no_false_absence(it: &[Item], n: usize, tag: &str) {
    let mut prev: Option<usize> = None; // entry shown just before
    let mut start = true;
    for i in it {
        match i {
            Item::Entry(k, _) => {
                if start { sv::check(*k == 0, tag) }
                if let Some(p) = prev { sv::check(p + 1 == *k, tag) }
                prev = Some(*k);
            }
            Item::Hidden => prev = None,
        }
        start = false;
    }
    if start { sv::check(n == 0, tag) }
    if let Some(p) = prev { sv::check(p + 1 == n, tag) }
}
pub fn is_pruned(t: &HashTree) -> bool { matches!(t, HashTree::Pruned(_)) }
/// The subtree shows exactly this value.
pub fn shows<V: Val>(t: &HashTree, v: &V) -> bool {
    match (t, v.leaf()) { (HashTree::Leaf(d), Some(x)) => sv::eq(d, &x), (HashTree::Pruned(h), None) => same(h, &v.hash()), _ => false }
}
/// What the witness says of each entry: 0 nothing, 1 its key, 2 key and value. Fails on anything false.
pub fn reveal<K: Key, V: Val>(it: &[Item], m: &[(K, V)], tag: &str) -> Vec<u8> {
    let mut r = vec![0u8; m.len()];
    for i in it {
        if let Item::Entry(k, s) = i {
            r[*k] = if is_pruned(s) && m[*k].1.leaf().is_some() { 1 } else { sv::check(shows(s, &m[*k].1), tag); 2 };
        }
    }
    r
}
/// Entries of the full tree equal the model, in order.
pub fn full_matches<K: Key, V: Val>(t: &HashTree, m: &[(K, V)], tag: &str) {
    let mut f = vec![];
    flatten(t, &mut f);
    sv::check(f.len() == m.len(), tag);
    for (t, (k, v)) in f.iter().zip(m) {
        match t { HashTree::Labeled(l, s) => { sv::check(sv::eq(l, &k.bytes()), tag); sv::check(shows(s, v), tag) } _ => sv::fail(tag) }
    }
}
