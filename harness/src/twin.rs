//! The same operations on two collections: C27.
use crate::group::{big, change, deep_layout, layout, select, sizes, Layout, Sel};
use crate::model::*;
use crate::shapes::SHAPES;
use crate::store::Item;
use crate::sv;
use candid::CandidType;
use certified_vars::label::Prefix;
use certified_vars::rbtree::entry::Entry;
use certified_vars::{AsHashTree, Group, HashTree, Map, Paged, Seq};
use serde::Serialize;

/// A kind of collection, with its operations as data.
trait Twin: Sized {
    type Op: Clone;
    fn new() -> Self;
    /// Some history.
    fn history() -> Vec<Self::Op>;
    /// What else there is in another collection.
    type Extra;
    fn extra() -> Self::Extra;
    /// An operation of another collection, that has to do with this one.
    fn other(o: &Self::Op, x: &Self::Extra) -> Self::Op;
    fn run(&mut self, o: &Self::Op);
    /// Reads, which may make no difference.
    fn look(&self, o: &Self::Op);
    fn root(&self) -> certified_vars::Hash;
    /// Whatever can be observed of both is the same.
    fn same(&self, o: &Self);
}
fn trees(a: &HashTree, b: &HashTree, tag: &str) { sv::check(trees_equal(a, b), tag) }
/// Two collections with the same history, with something else going on meanwhile.
fn twins<T: Twin>() {
    let ops = T::history();
    let world = sv::choice(4);
    let extra = T::extra();
    let mut a = T::new();
    for o in &ops { a.run(o); if world == 0 { a.look(o) } }
    let mut b = Box::new(T::new());
    match world {
        0 => { for o in &ops { b.run(o) } sv::cover("looked at or not") }
        1 => {
            // where another one was, with its bytes still there
            sv::memory(true, 0);
            let mut x = T::new();
            for o in ops.iter().rev() { x.run(&T::other(o, &extra)); x.look(o) }
            drop(x);
            for o in &ops { b.run(o) }
            sv::cover("memory used before")
        }
        2 => {
            // next to another one, and moved around
            let mut x = T::new();
            for o in &ops {
                x.run(&T::other(o, &extra));
                x.look(o);
                a.look(o);
                b.run(o);
                b = Box::new(*b);
            }
            if let Some(o) = ops.first() {
                x.look(o);
                b.look(o);
                // and in its place
                std::mem::swap(&mut *b, &mut x);
                b.look(o);
                sv::check(same(&x.root(), &a.root()), "root-hash");
                std::mem::swap(&mut *b, &mut x);
            }
            sv::cover("others alive")
        }
        _ => {
            // the same one again, in memory full of something
            sv::memory(true, 0xa5);
            let mut x = T::new();
            for o in &ops { x.run(o); x.look(o) }
            *b = T::new();
            drop(x);
            for o in &ops { b.run(o); b.look(o); b.look(o) }
            sv::cover("another life")
        }
    }
    b.same(&a);
    a.same(&b);
}

// ---------- maps ----------
#[derive(Clone)]
enum MapOp<K, V> { Put(K, V), Del(K), Change(K, V), Enter(K, V), Take(K), Clear, Collect }
use MapOp::*;
/// How a kind of map is told from another.
trait Kind { type K: Key; type V: Val; fn more(_: &Map<Self::K, Self::V>, _: &Map<Self::K, Self::V>) {} fn big() -> bool { false } }
struct M<T: Kind>(Map<T::K, T::V>);
impl<T: Kind> Twin for M<T> {
    type Op = MapOp<T::K, T::V>;
    fn new() -> Self { M(Map::new()) }
    fn history() -> Vec<Self::Op> {
        let n = sv::param("n");
        let mut ops = vec![];
        if T::big() {
            let rule = sv::choice(6);
            let total = n + rule * n / 8;
            for i in 0..total { ops.push(Put(T::K::nth(order(rule, i, total)), T::V::fresh())) }
            for i in 0..total - n { ops.push(Del(T::K::nth(order((rule + 2) % 5, i, total)))) }
            if rule % 2 == 1 { ops.push(Collect) }
            return ops;
        }
        let n = sv::choice(n + 1);
        let (total, shape) = SHAPES[n][sv::choice(SHAPES[n].len())];
        let keys: Vec<T::K> = increasing(total as usize);
        for &o in shape { ops.push(if o >= 0 { Put(keys[o as usize].clone(), T::V::fresh()) } else { Del(keys[(-1 - o) as usize].clone()) }) }
        for _ in 0..sv::param("k") {
            ops.push(match sv::choice(7) {
                0 => Put(T::K::fresh(), T::V::fresh()),
                1 => Del(T::K::fresh()),
                2 => Change(T::K::fresh(), T::V::fresh()),
                3 => Enter(T::K::fresh(), T::V::fresh()),
                4 => Take(T::K::fresh()),
                5 => Clear,
                _ => Collect,
            })
        }
        ops
    }
    type Extra = T::V;
    fn extra() -> T::V { T::V::fresh() }
    fn other(o: &Self::Op, v: &T::V) -> Self::Op {
        match o { Put(k, _) | Change(k, _) | Enter(k, _) | Del(k) | Take(k) => Put(k.clone(), v.clone()), Clear => Clear, Collect => Collect }
    }
    fn run(&mut self, o: &Self::Op) {
        match o {
            Put(k, v) => { self.0.insert(k.clone(), v.clone()); }
            Del(k) => { self.0.remove(k); }
            Change(k, v) => { if let Entry::Occupied(e) = self.0.entry(k.clone()).and_modify(|x| *x = v.clone()) { e.get(); } }
            Enter(k, v) => { self.0.entry(k.clone()).or_insert(v.clone()); }
            Take(k) => { if let Entry::Occupied(e) = self.0.entry(k.clone()) { e.remove_entry(); } }
            Clear => self.0.clear(),
            Collect => { let x = self.0.iter().map(|(k, v)| (k.clone(), v.clone())).collect(); self.0 = x }
        }
    }
    fn look(&self, o: &Self::Op) {
        let h = self.0.root_hash();
        sv::check(same(&self.0.as_hash_tree().reconstruct(), &h), "stale-root-hash");
        if T::big() { return }
        match o { Put(k, _) | Del(k) | Change(k, _) | Enter(k, _) | Take(k) => { sv::check(same(&self.0.witness(k).reconstruct(), &h), "stale-root-hash"); self.0.get(k); } Clear | Collect => {} }
        sv::check(same(&self.0.witness_keys().reconstruct(), &h), "stale-root-hash");
        self.0.iter().for_each(|_| ());
    }
    fn root(&self) -> certified_vars::Hash { self.0.root_hash() }
    fn same(&self, o: &Self) {
        let (a, b) = (&self.0, &o.0);
        sv::check(same(&a.root_hash(), &b.root_hash()), "root-hash");
        trees(&a.as_hash_tree(), &b.as_hash_tree(), "hash-tree");
        trees(&a.witness_keys(), &b.witness_keys(), "witness");
        sv::check(a.len() == b.len(), "length");
        let (mut i, mut j) = (a.iter(), b.iter());
        while let Some(x) = i.next() { match j.next() { Some(y) => { sv::check(sv::eq(&x.0.ident(), &y.0.ident()), "key"); sv::check(x.1.same(y.1), "value") } None => sv::fail("length") } }
        sv::check(j.next().is_none(), "length");
        let q = if T::big() { T::K::nth(sv::choice(4) * 7) } else { T::K::fresh() };
        trees(&a.witness(&q), &b.witness(&q), "witness");
        if !T::big() && sv::param("range") == 1 {
            let r = T::K::fresh();
            sv::assume(q <= r);
            trees(&a.as_tree().key_range(&q, &r), &b.as_tree().key_range(&q, &r), "witness");
            trees(&a.as_tree().value_range(&q, &r), &b.as_tree().value_range(&q, &r), "witness");
        }
        T::more(a, b);
        sv::obs_bytes(&a.root_hash());
    }
}
/// Equal encodings too, which give equal collections again.
fn encodings<T: Serialize + serde::de::DeserializeOwned + CandidType + AsHashTree>(a: &T, b: &T) {
    match (candid::encode_one(a), candid::encode_one(b)) {
        (Ok(a), Ok(b)) => {
            sv::check(sv::eq(&a, &b), "encoding");
            match (candid::decode_one::<T>(&a), candid::decode_one::<T>(&b)) { (Ok(a), Ok(b)) => trees(&a.as_hash_tree(), &b.as_hash_tree(), "decoded"), (Err(_), Err(_)) => {} _ => sv::fail("decoded") }
        }
        (Err(_), Err(_)) => {}
        _ => sv::fail("encoding"),
    }
}
/// A key of which the symbolic part comes after a long beginning.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct LongKey(u8);
impl certified_vars::label::Label for LongKey { fn as_label(&self) -> std::borrow::Cow<[u8]> { std::borrow::Cow::Owned(self.bytes()) } }
impl Key for LongKey { fn fresh() -> Self { LongKey(sv::u8()) } fn bytes(&self) -> Vec<u8> { let mut v = vec![b'k'; 150]; v.push(self.0); v } fn nth(i: usize) -> Self { LongKey(i as u8) } }
/// Long texts.
impl Val for String {
    fn fresh() -> Self { let mut s = String::from_utf8(vec![b'v'; 150]).unwrap(); s.push_str(&text(1)); s }
    fn same(&self, o: &Self) -> bool { sv::eq(self.as_bytes(), o.as_bytes()) }
    fn hash(&self) -> certified_vars::Hash { leaf_h(self.as_bytes()) }
    fn leaf(&self) -> Option<Vec<u8>> { Some(self.as_bytes().to_vec()) }
}
macro_rules! kinds { ($($n:ident $k:ty, $v:ty, $big:literal, $f:expr;)*) => { $( struct $n; impl Kind for $n { type K = $k; type V = $v; fn big() -> bool { $big } fn more(a: &Map<$k, $v>, b: &Map<$k, $v>) { $f(a, b) } } )* } }
kinds! {
    Bytes u8, u8, false, |_, _| ();
    Coded u8, u8, false, |a, b| encodings(a, b);
    Wide u16, Vec<u8>, false, |_, _| ();
    Texts String, u8, false, |_, _| ();
    Long Vec<u8>, Box<u8>, false, |_, _| ();
    Tags Tag, u8, false, |_, _| ();
    Comps Pair, u8, false, |a: &Map<Pair, u8>, b: &Map<Pair, u8>| { let p = sv::u8(); trees(&a.witness_keys_with_prefix(&p), &b.witness_keys_with_prefix(&p), "witness"); match (a.as_tree().max_entry_with_prefix(&p), b.as_tree().max_entry_with_prefix(&p)) { (None, None) => {} (Some(x), Some(y)) => sv::check(x == y, "last-of-prefix"), _ => sv::fail("last-of-prefix") } };
    Longs LongKey, String, false, |_, _| ();
    LargeLongs LongKey, String, true, |_, _| ();
    Seqs u8, Seq<u8>, false, |_, _| ();
    Inner u8, Small, false, |_, _| ();
    Large u16, u8, true, |a, b| encodings(a, b);
    LargeText String, Vec<u8>, true, |_, _| ();
}
/// A map as a value.
#[derive(Clone)]
struct Small(Vec<(u8, u8)>, std::rc::Rc<Map<u8, u8>>);
impl Val for Small {
    fn fresh() -> Self { let v: Vec<(u8, u8)> = (0..sv::choice(3)).map(|i| (i as u8, sv::u8())).collect(); let mut m = Map::new(); for e in &v { m.insert(e.0, e.1); } Small(v, std::rc::Rc::new(m)) }
    fn same(&self, o: &Self) -> bool { self.0 == o.0 }
    fn hash(&self) -> certified_vars::Hash { self.1.root_hash() }
    fn leaf(&self) -> Option<Vec<u8>> { None }
}
impl AsHashTree for Small { fn root_hash(&self) -> certified_vars::Hash { self.1.root_hash() } fn as_hash_tree(&self) -> HashTree<'_> { self.1.as_hash_tree() } }

// ---------- sequences ----------
#[derive(Clone)]
enum SeqOp<T> { Append(T), Extend(Vec<T>), Clear, Reserve(usize), Shrink, Clone, Through }
struct Row<T>(Seq<T>);
impl<T: Item> Twin for Row<T> {
    type Op = SeqOp<T>;
    fn new() -> Self { Row(Seq::new()) }
    fn history() -> Vec<Self::Op> {
        (0..sv::param("n")).map(|_| match sv::choice(7) { 0 => SeqOp::Append(T::fresh()), 1 => SeqOp::Extend((0..sv::choice(3)).map(|_| T::fresh()).collect()), 2 => SeqOp::Clear, 3 => SeqOp::Reserve(sv::choice(2) * 9), 4 => SeqOp::Shrink, 5 => SeqOp::Clone, _ => SeqOp::Through }).collect()
    }
    type Extra = T;
    fn extra() -> T { T::fresh() }
    fn other(o: &Self::Op, x: &T) -> Self::Op { match o { SeqOp::Append(_) => SeqOp::Append(x.clone()), SeqOp::Extend(v) => SeqOp::Extend(v.iter().rev().map(|_| x.clone()).collect()), o => o.clone() } }
    fn run(&mut self, o: &Self::Op) {
        let s = &mut self.0;
        match o {
            SeqOp::Append(x) => s.append(x.clone()),
            SeqOp::Extend(v) => s.extend(v.iter().cloned()),
            SeqOp::Clear => s.clear(),
            SeqOp::Reserve(n) => s.reserve(*n),
            SeqOp::Shrink => s.shrink_to_fit(),
            SeqOp::Clone => *s = s.clone(),
            SeqOp::Through => { let v: Vec<T> = std::mem::take(s).into(); *s = Seq::from(v) }
        }
    }
    fn look(&self, _: &Self::Op) {
        sv::check(same(&self.0.as_hash_tree().reconstruct(), &self.0.root_hash()), "stale-root-hash");
        self.0.iter().for_each(|_| ());
    }
    fn root(&self) -> certified_vars::Hash { self.0.root_hash() }
    fn same(&self, o: &Self) {
        let (a, b) = (&self.0, &o.0);
        sv::check(same(&a.root_hash(), &b.root_hash()), "root-hash");
        trees(&a.as_hash_tree(), &b.as_hash_tree(), "hash-tree");
        sv::check(a.len() == b.len(), "length");
        sv::check(a == b, "equality");
        sv::obs_bytes(&a.root_hash());
    }
}

// ---------- pages ----------
struct P<K: Key, const S: usize>(Paged<K, u8, S>);
impl<K: Key, const S: usize> Twin for P<K, S> {
    type Op = (K, u8);
    fn new() -> Self { P(Paged::new()) }
    fn history() -> Vec<Self::Op> {
        if sv::param("keys") == 0 { let rule = sv::choice(3); return (0..sv::param("k")).map(|i| (K::nth(match rule { 0 => 1, 1 => i % 3, _ => i * i / 5 % 4 }), sv::u8())).collect(); }
        let keys = increasing::<K>(sv::param("keys"));
        (0..sv::param("k")).map(|_| (keys[sv::choice(keys.len())].clone(), sv::u8())).collect()
    }
    type Extra = u8;
    fn extra() -> u8 { sv::u8() }
    fn other(o: &Self::Op, x: &u8) -> Self::Op { (o.0.clone(), *x) }
    fn run(&mut self, o: &Self::Op) { self.0.insert(o.0.clone(), o.1) }
    fn look(&self, o: &Self::Op) {
        let h = self.0.root_hash();
        let last = self.0.get_last_page_number(&o.0);
        sv::check(self.0.get(&o.0, last.unwrap_or(0)).is_some() == last.is_some() && self.0.get(&o.0, last.map_or(0, |n| n + 1)).is_none(), "last-page-number");
        if sv::param("keys") == 0 { return sv::check(same(&self.0.witness_last_page_number(&o.0).reconstruct(), &h), "stale-root-hash"); }
        sv::check(same(&self.0.as_hash_tree().reconstruct(), &h), "stale-root-hash");
        sv::check(same(&self.0.witness(&o.0, 0).reconstruct(), &h), "stale-root-hash");
        sv::check(same(&self.0.witness_last_page_number(&o.0).reconstruct(), &h), "stale-root-hash");
    }
    fn root(&self) -> certified_vars::Hash { self.0.root_hash() }
    fn same(&self, o: &Self) {
        let (a, b) = (&self.0, &o.0);
        sv::check(same(&a.root_hash(), &b.root_hash()), "root-hash");
        trees(&a.as_hash_tree(), &b.as_hash_tree(), "hash-tree");
        let q = if sv::param("keys") == 0 { K::nth(sv::choice(5)) } else { K::fresh() };
        let n = a.get_last_page_number(&q);
        sv::check(n == b.get_last_page_number(&q), "last-page-number");
        trees(&a.witness_last_page_number(&q), &b.witness_last_page_number(&q), "witness");
        for i in [0, 1, n.unwrap_or(2), 1000] {
            trees(&a.witness(&q, i), &b.witness(&q, i), "witness");
            match (a.get(&q, i), b.get(&q, i)) { (None, None) => {} (Some(x), Some(y)) => sv::check(x == y && same(&x.root_hash(), &y.root_hash()), "page"), _ => sv::fail("page") }
        }
        sv::obs_bytes(&a.root_hash());
    }
}

// ---------- groups ----------
fn kind(i: usize) -> Sel { [Sel::Full, Sel::Part(0), Sel::Part(1)][i % 3] }
/// Two groups built alike, and changed alike, have the same witnesses, whatever else there is.
fn groups(l: Layout) {
    let n = l.n();
    let order: Vec<usize> = (0..n).map(|i| order(n % 5, i, n)).collect();
    let world = sv::choice(3);
    let mut a = l.build(&order);
    let mut other = None;
    match world {
        0 => {}
        1 => {
            // same members elsewhere, members with other contents
            let mut l = Layout { paths: l.paths.iter().rev().cloned().collect(), vals: l.vals.clone() };
            let mut x = l.build(&order);
            change(&mut x, &mut l, 0);
            x.root_hash();
            other = Some(x);
            sv::cover("another one alive");
        }
        _ => {
            sv::memory(true, 0xa5);
            let mut l = Layout { paths: l.paths.clone(), vals: l.vals.clone() };
            let mut x = Box::new(l.build(&order.iter().rev().cloned().collect::<Vec<_>>()));
            change(&mut x, &mut l, n - 1);
            x.root_hash();
            x.as_hash_tree();
            drop(x);
            sv::cover("memory used before");
        }
    }
    let mut b = Box::new(l.build(&order));
    if sv::choice(2) == 1 {
        // the same change to both
        let v = sv::vec(2);
        let read = sv::choice(2) == 1;
        if read { a.root_hash(); select(a.witness(), 0, Sel::Full).build(); }
        a.get_mut::<crate::group::Mem<0>>().set(&v);
        b.get_mut::<crate::group::Mem<0>>().set(&v);
        sv::cover("changed");
    }
    if let Some(x) = &mut other { std::mem::swap(x, &mut *b); b.root_hash(); std::mem::swap(x, &mut *b) } else { b = Box::new(*b) }
    sv::check(same(&a.root_hash(), &b.root_hash()), "root-hash");
    trees(&a.as_hash_tree(), &b.as_hash_tree(), "hash-tree");
    let (mut r, mut s) = (a.witness(), b.witness());
    let m = sv::choice(3);
    let i = sv::choice(n);
    for j in 0..n { let j = (j * 5 + i) % n; if m == 2 || m == 1 && (j + n - i) % n < 2 { r = select(r, j, kind(j)); s = select(s, j, kind(j)); if j == i { if let Some(x) = &other { x.root_hash(); select(x.witness(), i, kind(j)).build(); } } } }
    trees(&r.build(), &s.build(), "witness");
    // once more
    trees(&select(a.witness(), i, kind(i)).build(), &select(b.witness(), i, kind(i)).build(), "witness");
    sv::obs_bytes(&a.root_hash());
    sv::cover("end");
}

harness! {
    fn c27_u8() { twins::<M<Bytes>>() }
    fn c27_coded() { twins::<M<Coded>>() }
    fn c27_u16() { twins::<M<Wide>>() }
    fn c27_string() { twins::<M<Texts>>() }
    fn c27_vec() { twins::<M<Long>>() }
    fn c27_tag() { twins::<M<Tags>>() }
    fn c27_comp() { twins::<M<Comps>>() }
    fn c27_seqs() { twins::<M<Seqs>>() }
    fn c27_inner() { twins::<M<Inner>>() }
    fn c27_long() { twins::<M<Longs>>() }
    fn c27_large_long() { twins::<M<LargeLongs>>() }
    fn c27_large() { twins::<M<Large>>() }
    fn c27_large_text() { twins::<M<LargeText>>() }
    fn c27_seq_u8() { twins::<Row<u8>>() }
    fn c27_seq_u32() { twins::<Row<u32>>() }
    fn c27_seq_string() { twins::<Row<String>>() }
    fn c27_pages1() { twins::<P<u8, 1>>() }
    fn c27_pages2() { twins::<P<u16, 2>>() }
    fn c27_pages3() { twins::<P<u8, 3>>() }
    fn c27_group() { groups(layout(sizes())) }
    fn c27_group_big() { groups(big()) }
    fn c27_group_deep() { groups(deep_layout()) }
}
