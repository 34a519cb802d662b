//! Hash trees: C17, C18, C26.
use crate::map::{m_insert, M};
use crate::model::*;
use crate::sv;
use certified_vars::hashtree::{fork, fork_hash, labeled, labeled_hash, leaf_hash, ForkInner};
use certified_vars::{AsHashTree, Hash, HashTree, Map};
use std::borrow::Cow;

fn content() -> Vec<u8> { sv::vec(sv::choice(sv::param("len") + 1)) }
fn cow(v: Vec<u8>) -> Cow<'static, [u8]> { if sv::param("leak") == 1 { Cow::Borrowed(Box::leak(v.into_boxed_slice())) } else { Cow::Owned(v) } }
/// Any tree within the node budget.
fn any_tree(budget: &mut usize) -> HashTree<'static> {
    *budget -= 1;
    let kinds = if *budget == 0 { 3 } else if *budget < 2 { 4 } else { 5 };
    match sv::choice(kinds) {
        0 => HashTree::Empty,
        1 => HashTree::Leaf(cow(content())),
        2 => HashTree::Pruned(sv::bytes()),
        3 => HashTree::Labeled(cow(content()), Box::new(any_tree(budget))),
        _ => { *budget -= 1; let l = any_tree(budget); *budget += 1; let r = any_tree(budget); HashTree::Fork(Box::new(ForkInner(l, r))) }
    }
}
fn tree() -> HashTree<'static> { let mut b = sv::param("nodes"); any_tree(&mut b) }

// ---------- C17 ----------
fn reconstruction() {
    let t = tree();
    let want = rebuild(&t);
    sv::check(same(&t.reconstruct(), &want), "reconstruct");
    match &t {
        HashTree::Leaf(d) => { sv::cover("leaf"); sv::check(same(&leaf_hash(d), &want), "leaf-hash") }
        HashTree::Fork(f) => {
            sv::cover("fork");
            sv::check(same(&fork_hash(&f.0.reconstruct(), &f.1.reconstruct()), &want), "fork-hash");
            sv::check(same(&fork_hash(&f.left().reconstruct(), &f.right().reconstruct()), &want), "fork-sides");
        }
        HashTree::Labeled(l, s) => { sv::cover("labeled"); sv::check(same(&labeled_hash(l, &s.reconstruct()), &want), "labeled-hash") }
        HashTree::Empty => sv::cover("empty"),
        HashTree::Pruned(h) => { sv::cover("pruned"); sv::check(same(h, &want), "pruned") }
    }
    sv::obs_bytes(&want);
}
/// The helper functions on any input, the constructors on any trees.
fn helpers() {
    let (a, b): (Hash, Hash) = (sv::bytes(), sv::bytes());
    let d = sv::vec(sv::choice(sv::param("len") + 1));
    sv::check(same(&fork_hash(&a, &b), &fork_h(&a, &b)), "fork-hash");
    sv::check(same(&leaf_hash(&d), &leaf_h(&d)), "leaf-hash");
    sv::check(same(&labeled_hash(&d, &a), &labeled_h(&d, &a)), "labeled-hash");
    let f = fork(HashTree::Pruned(a), HashTree::Leaf((&d[..]).into()));
    sv::check(same(&f.reconstruct(), &fork_h(&a, &leaf_h(&d))), "fork");
    let l = labeled(&d, HashTree::Pruned(b));
    sv::check(same(&l.reconstruct(), &labeled_h(&d, &b)), "labeled");
    sv::check(same(&fork(HashTree::Empty, labeled(&d, HashTree::Empty)).reconstruct(), &fork_h(&h("ic-hashtree-empty", &[]), &labeled_h(&d, &h("ic-hashtree-empty", &[])))), "empty");
    sv::obs_bytes(&f.reconstruct());
    sv::cover("end");
}
/// Inputs of the lengths around limits of hash blocks, bytes and pages: what is hashed is all of it.
const LENGTHS: [usize; 36] = [0, 1, 13, 14, 15, 31, 32, 33, 54, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 191, 192, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 4096, 4097, 65536, 70000];
fn helpers_long() {
    let n = LENGTHS[sv::choice(sv::param("kinds"))];
    let a: Hash = sv::bytes();
    let d = sv::vec(n);
    sv::check(same(&leaf_hash(&d), &leaf_h(&d)), "leaf-hash");
    sv::check(same(&labeled_hash(&d, &a), &labeled_h(&d, &a)), "labeled-hash");
    let t = labeled(&d, fork(HashTree::Leaf((&d[..]).into()), HashTree::Pruned(a)));
    let want = labeled_h(&d, &fork_h(&leaf_h(&d), &a));
    sv::check(same(&t.reconstruct(), &want), "reconstruct");
    // a byte that differs anywhere makes a difference
    if n > 0 {
        let mut e = d.clone();
        let i = [0, n / 3, n / 2, n - 1][sv::choice(4)];
        e[i] = sv::u8();
        let eq = e[i] == d[i];
        sv::check(same(&leaf_hash(&e), &leaf_hash(&d)) == eq, "same-hash-different-leaf");
        sv::check(same(&labeled_hash(&e, &a), &labeled_hash(&d, &a)) == eq, "same-hash-different-label");
    }
    sv::cover("end");
}
/// A large tree: a full one of the given height over all kinds of nodes, or a comb.
fn large(height: usize, i: &mut usize) -> HashTree<'static> {
    *i += 1;
    if height == 0 {
        return match *i % 6 {
            0 => HashTree::Empty,
            1 => HashTree::Pruned(sv::bytes()),
            2 => HashTree::Labeled(cow(sv::vec(*i % 5)), Box::new(HashTree::Leaf(cow(sv::vec(*i % 4))))),
            3 => HashTree::Labeled(cow(sv::vec(2)), Box::new(HashTree::Labeled(cow(sv::vec(2)), Box::new(HashTree::Pruned(sv::bytes()))))),
            _ => HashTree::Leaf(cow(sv::vec(*i % 7))),
        };
    }
    if *i % 5 == 0 { return HashTree::Labeled(cow(sv::vec(*i % 3)), Box::new(large(height - 1, i))); }
    let l = large(height - 1, i);
    fork(l, large(height - 1, i))
}
fn large_tree() {
    let (h, mut i) = (sv::choice(sv::param("height") + 1), sv::choice(6));
    let t = large(h, &mut i);
    let want = rebuild(&t);
    sv::check(same(&t.reconstruct(), &want), "reconstruct");
    let bytes = serde_cbor::to_vec(&t).unwrap();
    decoded(&bytes, &t);
    listings(&t);
    // any one part pruned
    let mut j = sv::choice(12) * nodes(&t) / 12;
    sv::check(same(&prune_at(t, &mut j).reconstruct(), &want), "pruned-reconstruct");
    sv::cover("end");
}
/// All trees of a large map.
fn large_map() {
    let s: State<Map<u16, Vec<u8>>, u16, Vec<u8>> = build();
    let q = match sv::choice(3) { 0 => u16::nth(3), 1 => u16::nth(s.m.len() - 1) + 1, _ => 0 };
    let t = match sv::choice(5) { 0 => s.map.witness(&q), 1 => s.map.as_hash_tree(), 2 => s.map.witness_keys(), 3 => s.map.witness_key_range::<u16, u16>(&q, &u16::MAX), _ => s.map.witness_value_range::<u16, u16>(&0, &q) };
    decoded(&serde_cbor::to_vec(&t).unwrap(), &t);
    listings(&t);
    sv::check(same(&t.reconstruct(), &rebuild(&t)), "reconstruct");
    sv::cover("end");
}
fn prune_at(t: HashTree<'static>, i: &mut usize) -> HashTree<'static> {
    if *i == 0 { *i = usize::MAX; return HashTree::Pruned(t.reconstruct()); }
    if *i != usize::MAX { *i -= 1 }
    match t {
        HashTree::Fork(f) => { let ForkInner(l, r) = *f; let l = prune_at(l, i); let r = prune_at(r, i); HashTree::Fork(Box::new(ForkInner(l, r))) }
        HashTree::Labeled(l, s) => HashTree::Labeled(l, Box::new(prune_at(*s, i))),
        t => t,
    }
}
fn pruning() {
    let mut t = tree();
    let root = t.reconstruct();
    for _ in 0..sv::param("k") {
        let mut i = sv::choice(nodes(&t));
        t = prune_at(t, &mut i);
        sv::check(same(&t.reconstruct(), &root), "pruned-reconstruct");
    }
    sv::obs_bytes(&root);
    sv::cover("end");
}
/// A deep tree: a chain of labels and forks on either side.
fn deep_chain() {
    let n = sv::param("n");
    let rule = sv::choice(3);
    let mut t = HashTree::Leaf(Cow::Owned(content()));
    for i in 0..n {
        t = match (rule + i) % 3 {
            0 => HashTree::Labeled(Cow::Owned(vec![sv::u8()]), Box::new(t)),
            1 => fork(t, HashTree::Pruned(sv::bytes())),
            _ => fork(HashTree::Leaf(Cow::Owned(vec![sv::u8()])), t),
        };
    }
    sv::check(same(&t.reconstruct(), &rebuild(&t)), "reconstruct");
    let bytes = serde_cbor::to_vec(&t).unwrap();
    decoded(&bytes, &t);
    listings(&t);
    sv::cover("end");
}

// ---------- C18 ----------
struct Dec<'b> { b: &'b [u8], at: usize }
impl<'b> Dec<'b> {
    fn byte(&mut self) -> u8 { if self.at >= self.b.len() { sv::fail("truncated") } self.at += 1; self.b[self.at - 1] }
    /// Head of an item: major type and argument in its shortest form.
    fn head(&mut self, major: u8) -> usize {
        let h = self.byte();
        sv::check(h >> 5 == major, "major-type");
        let (n, least) = match h & 31 { x @ 0..=23 => return x as usize, 24 => (1, 24), 25 => (2, 1 << 8), 26 => (4, 1 << 16), 27 => (8, 1 << 32), _ => sv::fail("item-head") };
        let mut v = 0usize;
        for _ in 0..n { v = v << 8 | self.byte() as usize }
        sv::check(v >= least, "shortest-head");
        v
    }
    fn bytes(&mut self) -> &'b [u8] { let n = self.head(2); if n > self.b.len() - self.at { sv::fail("truncated") } self.at += n; &self.b[self.at - n..self.at] }
    fn same(&mut self, t: &HashTree) {
        let n = self.head(4);
        let tag = self.head(0);
        match t {
            HashTree::Empty => sv::check(n == 1 && tag == 0, "empty-node"),
            HashTree::Fork(f) => { sv::check(n == 3 && tag == 1, "fork-node"); self.same(&f.0); self.same(&f.1) }
            HashTree::Labeled(l, s) => { sv::check(n == 3 && tag == 2, "labeled-node"); sv::check(sv::eq(self.bytes(), l), "label"); self.same(s) }
            HashTree::Leaf(d) => { sv::check(n == 2 && tag == 3, "leaf-node"); sv::check(sv::eq(self.bytes(), d), "leaf-content") }
            HashTree::Pruned(h) => { sv::check(n == 2 && tag == 4, "pruned-node"); sv::check(sv::eq(self.bytes(), h), "digest") }
        }
    }
}
fn decoded(b: &[u8], t: &HashTree) {
    let mut d = Dec { b, at: 0 };
    d.same(t);
    sv::check(d.at == b.len(), "trailing-bytes");
}
fn cbor() {
    let t = tree();
    let b = serde_cbor::to_vec(&t).unwrap();
    decoded(&b, &t);
    sv::obs_bytes(&b);
    match t { HashTree::Empty => sv::cover("empty"), HashTree::Leaf(_) => sv::cover("leaf"), HashTree::Pruned(_) => sv::cover("pruned"), HashTree::Labeled(..) => sv::cover("labeled"), HashTree::Fork(_) => sv::cover("fork") }
}
/// Labels and leaves of the lengths around the limits of the encoding.
fn cbor_lengths() {
    let lens = [0usize, 1, 22, 23, 24, 25, 31, 32, 33, 64, 127, 128, 255, 256, 257, 1000, 65535, 65536, 65537];
    let n = lens[sv::choice(sv::param("kinds"))];
    let t = if sv::choice(2) == 0 { HashTree::Leaf(Cow::Owned(sv::vec(n))) } else { fork(HashTree::Labeled(Cow::Owned(sv::vec(n)), Box::new(HashTree::Pruned(sv::bytes()))), HashTree::Empty) };
    decoded(&serde_cbor::to_vec(&t).unwrap(), &t);
    sv::check(same(&t.reconstruct(), &rebuild(&t)), "reconstruct");
    listings(&t);
    sv::cover("end");
}
/// The trees that maps hand out.
fn cbor_witness() {
    let s: State<Map<Vec<u8>, Vec<u8>>, Vec<u8>, Vec<u8>> = build();
    let q = <Vec<u8> as Key>::fresh();
    let t = match sv::choice(4) { 0 => s.map.witness(&q), 1 => s.map.as_hash_tree(), 2 => s.map.witness_keys(), _ => s.map.witness_keys_with_prefix(&q[..]) };
    let b = serde_cbor::to_vec(&t).unwrap();
    decoded(&b, &t);
    listings(&t);
    sv::obs_bytes(&b);
    sv::cover("end");
}

// ---------- C26 ----------
fn visible<'t>(t: &'t HashTree, labels: &mut Vec<&'t [u8]>, leaves: &mut Vec<&'t [u8]>) {
    match t {
        HashTree::Empty | HashTree::Pruned(_) => {}
        HashTree::Leaf(d) => leaves.push(d),
        HashTree::Labeled(l, s) => { labels.push(l); visible(s, labels, leaves) }
        HashTree::Fork(f) => { visible(&f.0, labels, leaves); visible(&f.1, labels, leaves) }
    }
}
fn listings(t: &HashTree) {
    // the listing functions tie the borrow to the tree's own lifetime
    let t: &'static HashTree<'static> = unsafe { std::mem::transmute(t) };
    let (mut l, mut v) = (vec![], vec![]);
    visible(t, &mut l, &mut v);
    let (a, b) = (t.get_labels(), t.get_leaf_values());
    sv::check(a.len() == l.len(), "label-count");
    for (x, y) in a.iter().zip(&l) { sv::check(sv::eq(x, y), "label") }
    sv::check(b.len() == v.len(), "leaf-count");
    for (x, y) in b.iter().zip(&v) { sv::check(sv::eq(x, y), "leaf") }
}
fn listing() {
    let t = tree();
    listings(&t);
    sv::obs(t.reconstruct()[0] as u64);
    sv::cover("end");
}
/// The full tree of a map lists its keys and values in order.
fn listing_map() {
    let s: State<Map<u8, u8>, u8, u8> = build();
    let t = s.map.as_hash_tree();
    let (l, v) = (t.get_labels(), t.get_leaf_values());
    sv::check(l.len() == s.m.len() && v.len() == s.m.len(), "count");
    for (i, (k, x)) in s.m.iter().enumerate() { sv::check(sv::eq(l[i], &[*k]), "label"); sv::check(sv::eq(v[i], &[*x]), "leaf") }
    let q = s.map.witness_keys();
    sv::check(q.get_leaf_values().is_empty(), "pruned-values");
    sv::check(q.get_labels().len() == s.m.len(), "count");
    sv::cover("end");
}

harness! {
    fn c17_any() { reconstruction() }
    fn c17_helpers() { helpers() }
    fn c17_pruning() { pruning() }
    fn c17_long() { helpers_long() }
    fn c17_large() { large_tree() }
    fn c17_large_map() { large_map() }
    fn c18_large() { large_tree() }
    fn c18_large_map() { large_map() }
    fn c26_large() { large_tree() }
    fn c26_large_map() { large_map() }
    fn c17_chain() { deep_chain() }
    fn c18_any() { cbor() }
    fn c18_lengths() { cbor_lengths() }
    fn c18_chain() { deep_chain() }
    fn c18_witness() { cbor_witness() }
    fn c26_any() { listing() }
    fn c26_map() { listing_map() }
    fn c26_chain() { deep_chain() }
    fn c26_witness() { cbor_witness() }
}
