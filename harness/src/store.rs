//! Paged storage and sequences: C13 to C15.
use crate::map::{m_insert, M};
use crate::model::*;
use crate::sv;
use certified_vars::label::{Label, Prefix};
use certified_vars::{AsHashTree, Hash, HashTree, Paged, Seq};

// ---------- paged ----------
/// Each key's items in order.
pub type Items<K> = Vec<(K, Vec<u8>)>;
pub fn put<K: Key, const S: usize>(p: &mut Paged<K, u8, S>, m: &mut Items<K>, k: K) {
    put_value(p, m, k, sv::u8())
}
pub fn put_value<K: Key, const S: usize>(p: &mut Paged<K, u8, S>, m: &mut Items<K>, k: K, v: u8) {
    p.insert(k.clone(), v);
    match place(m, &k) { At::Key(i) => m[i].1.push(v), At::Gap(g) => m.insert(g, (k, vec![v])) }
}
/// Looks at what there is of a key; it may make no difference later.
fn peek<K: Key, const S: usize>(p: &Paged<K, u8, S>, m: &Items<K>, k: &K) {
    let n = of(m, k).len();
    sv::check(p.get_last_page_number(k) == pages(n, S).checked_sub(1), "last-page-number");
    sv::check(p.get(k, n / S).map_or(0, |s| s.len()) == n % S, "page-length");
    sv::check(p.get(k, pages(n, S)).is_none(), "page-out-of-range");
    let root = p.root_hash();
    sv::check(same(&p.as_hash_tree().reconstruct(), &root), "stale-root-hash");
    sv::check(same(&p.witness(k, 0).reconstruct(), &root), "stale-root-hash");
    sv::check(same(&p.witness_last_page_number(k).reconstruct(), &root), "stale-root-hash");
}
/// Any inserts.
pub fn filled<K: Key, const S: usize>() -> (Paged<K, u8, S>, Items<K>) {
    let mut p = if sv::choice(2) == 0 { Paged::new() } else { Paged::default() };
    let mut m = vec![];
    let look = sv::choice(2) == 1;
    for _ in 0..sv::choice(sv::param("k") + 1) { let k = K::fresh(); if look { peek(&p, &m, &k) } put(&mut p, &mut m, k) }
    (p, m)
}
/// More inserts, to keys in known order.
pub fn filled_ranked<K: Key, const S: usize>() -> (Paged<K, u8, S>, Items<K>) {
    let keys = increasing::<K>(sv::param("keys"));
    let mut p = Paged::new();
    let mut m = vec![];
    let look = sv::choice(2) == 1;
    for _ in 0..sv::param("k") { let k = keys[sv::choice(keys.len())].clone(); if look { peek(&p, &m, &k) } put(&mut p, &mut m, k) }
    (p, m)
}
/// Inserts to a collection that comes back from its serialized form. What that form is does not matter here.
fn revived<const S: usize>() {
    // small, as their form would otherwise depend on them
    let small = |x: u8| { sv::assume(x < 24); x };
    let keys = increasing::<u8>(2);
    small(keys[1]);
    let (mut p, mut m) = (Paged::<u8, u8, S>::new(), vec![]);
    for _ in 0..sv::choice(sv::param("k") + 1) { put_value(&mut p, &mut m, keys[sv::choice(2)], small(sv::u8())) }
    let p: Option<Paged<u8, u8, S>> = serde_cbor::to_vec(&p).ok().and_then(|b| serde_cbor::from_slice(&b).ok());
    let mut p = match p { Some(p) => p, None => return sv::cover("not revived") };
    let k = keys[sv::choice(2)];
    for _ in 0..sv::param("more") { put(&mut p, &mut m, k) }
    page_contents((p, m));
}
pub fn pages(n: usize, s: usize) -> usize { (n + s - 1) / s }
fn of<'a, K: Ord>(m: &'a Items<K>, k: &K) -> &'a [u8] { match place(m, k) { At::Key(i) => &m[i].1, At::Gap(_) => &[] } }

fn page_contents<K: Key, const S: usize>((p, m): (Paged<K, u8, S>, Items<K>)) {
    let check = |k: &K, items: &[u8]| {
        let n = pages(items.len(), S);
        sv::check(p.get_last_page_number(k) == n.checked_sub(1), "last-page-number");
        for i in 0..n {
            let want = &items[i * S..items.len().min(i * S + S)];
            match p.get(k, i) { Some(s) => { sv::check(s.len() == want.len(), "page-length"); sv::check(sv::eq(s.as_ref(), want), "page-items"); sv::check(same(&s.root_hash(), &chain(want)), "page-hash") } None => sv::fail("page-missing") }
        }
        // any other number
        let j = sv::u64() as usize;
        sv::assume(j >= n);
        sv::check(p.get(k, j).is_none(), "page-out-of-range");
    };
    for (k, items) in &m { check(k, items) }
    let q = K::fresh();
    let items = of(&m, &q);
    sv::cover(if items.is_empty() { "unknown key" } else { "known key" });
    if m.iter().any(|e| e.1.len() > S) { sv::cover("several pages") }
    if items.is_empty() { check(&q, items) }
    sv::obs_bytes(&p.root_hash());
}

/// Many pages of one key, fewer of its neighbours, in one of several orders of arrival.
fn many<K: Key, const S: usize>() -> (Paged<K, u8, S>, Items<K>) {
    let n = sv::param("n");
    let k: Vec<K> = (0..4).map(|i| K::nth(i)).collect();
    let (mut p, mut m) = (Paged::new(), vec![]);
    let rule = sv::choice(3);
    if rule == 2 { for i in 0..n / 8 { put(&mut p, &mut m, k[i % 3].clone()) } }
    for i in 0..n { put(&mut p, &mut m, k[1].clone()); if rule == 1 && i % 8 == 0 { put(&mut p, &mut m, k[i / 8 % 4].clone()) } }
    for x in k { put(&mut p, &mut m, x) }
    (p, m)
}
/// Every page has its items, and every number of a page is its own.
fn many_pages<K: Key, const S: usize>() {
    let (p, m) = many::<K, S>();
    for (k, items) in &m {
        let n = pages(items.len(), S);
        sv::check(p.get_last_page_number(k) == Some(n - 1), "last-page-number");
        for i in 0..n {
            let want = &items[i * S..items.len().min(i * S + S)];
            match p.get(k, i) { Some(s) => { sv::check(s.len() == want.len(), "page-length"); sv::check(sv::eq(s.as_ref(), want), "page-items"); sv::check(same(&s.root_hash(), &chain(want)), "page-hash") } None => sv::fail("page-missing") }
        }
        let j = sv::u64() as usize;
        sv::assume(j >= n);
        sv::check(p.get(k, j).is_none(), "page-out-of-range");
    }
    sv::cover("end");
}
/// Witnesses of pages around the limits of their numbers.
fn many_witnesses<K: Key, const S: usize>() {
    let (p, m) = many::<K, S>();
    let root = p.root_hash();
    let e = entries::<K, S>(&m);
    let full = p.as_hash_tree();
    full_matches(&full, &e, "exposed-contents");
    sv::check(same(&rebuild(&full), &root), "stale-root-hash");
    let (k, items) = &m[sv::choice(m.len())];
    let n = pages(items.len(), S);
    let at = [0, 1, 127, 128, 254, 255, 256, 257, n - 1, n, n + 1, 65535, 65536, 1 << 24, 1 << 31, u32::MAX as usize][sv::choice(16)];
    let w = p.witness(k, at);
    sv::check(same(&w.reconstruct(), &root), "reconstruct");
    let label = Page::new(k, at as u32);
    match find_label(&w, &label.0) {
        Found::Here(s) => { if at >= n { sv::fail("absent-page-shown") } sv::check(shows(s, &Seq::from(&items[at * S..items.len().min(at * S + S)])), "page-commitment") }
        Found::Absent => if at < n { sv::fail("page-not-found") },
        Found::Unknown => sv::fail(if at < n { "page-not-found" } else { "absence-not-proved" }),
    }
    let w = p.witness_last_page_number(k);
    sv::check(same(&w.reconstruct(), &root), "reconstruct");
    match find_label(&w, &Page::new(k, n as u32 - 1).0) { Found::Here(_) => {} _ => sv::fail("last-page-not-shown") }
    sv::check(find_label(&w, &Page::new(k, n as u32).0) == Found::Absent, "next-page-absence-not-proved");
    sv::cover("end");
}
/// A collection as it comes back from stable memory, with pages of any number.
#[derive(serde::Serialize)]
struct StoredKey<K> { key: K, page: u32 }
#[derive(serde::Serialize)]
struct Stored<K> { data: StoredMap<K> }
struct StoredMap<K>(Vec<(StoredKey<K>, Vec<u8>)>);
impl<K: serde::Serialize> serde::Serialize for StoredMap<K> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut s = s.serialize_map(Some(self.0.len()))?;
        for (k, v) in &self.0 { s.serialize_entry(k, v)? }
        s.end()
    }
}
/// Pages of numbers that cannot be reached by inserting in a lifetime, by way of the stored form.
/// If the stored form is not the one expected here, nothing is decided.
fn stored_pages() {
    let k = sv::u8();
    let (a, b) = (sv::u32(), sv::u32());
    sv::assume(a < b);
    let items: Vec<u8> = sv::vec(2);
    let st = Stored { data: StoredMap(vec![(StoredKey { key: k, page: a }, vec![items[0]]), (StoredKey { key: k, page: b }, vec![items[1]])]) };
    let bytes = serde_cbor::to_vec(&st).unwrap();
    let mut p: Paged<u8, u8, 1> = match serde_cbor::from_slice(&bytes) { Ok(p) => p, Err(_) => { sv::cover("another form"); return } };
    sv::check(p.get_last_page_number(&k) == Some(b as usize), "last-page-number");
    match (p.get(&k, a as usize), p.get(&k, b as usize)) { (Some(x), Some(y)) => sv::check(x[0] == items[0] && y[0] == items[1], "page-items"), _ => sv::fail("page-missing") }
    let full = p.as_hash_tree();
    let e = vec![(Page::new(&k, a), Seq::from(&items[..1])), (Page::new(&k, b), Seq::from(&items[1..]))];
    full_matches(&full, &e, "exposed-contents");
    sv::check(same(&rebuild(&full), &p.root_hash()), "stale-root-hash");
    let at = match sv::choice(3) { 0 => a, 1 => b, _ => sv::u32() };
    let w = p.witness(&k, at as usize);
    sv::check(same(&w.reconstruct(), &p.root_hash()), "reconstruct");
    match find_label(&w, &Page::new(&k, at).0) {
        Found::Here(s) => { if at == a { sv::check(shows(s, &e[0].1), "page-commitment") } else if at == b { sv::check(shows(s, &e[1].1), "page-commitment") } else { sv::fail("absent-page-shown") } }
        Found::Absent => if at == a || at == b { sv::fail("page-not-found") },
        Found::Unknown => sv::fail("absence-not-proved"),
    }
    if b < u32::MAX {
        let w = p.witness_last_page_number(&k);
        sv::check(same(&w.reconstruct(), &p.root_hash()), "reconstruct");
        match find_label(&w, &Page::new(&k, b).0) { Found::Here(_) => {} _ => sv::fail("last-page-not-shown") }
        sv::check(find_label(&w, &Page::new(&k, b + 1).0) == Found::Absent, "next-page-absence-not-proved");
        drop((w, full));
        // one more
        let v = sv::u8();
        p.insert(k, v);
        sv::check(p.get_last_page_number(&k) == Some(b as usize + 1), "last-page-number");
        let mut e = e;
        e.push((Page::new(&k, b + 1), Seq::from(&[v][..])));
        for (i, n) in [a, b, b + 1].into_iter().enumerate() { match p.get(&k, n as usize) { Some(x) => { sv::check(x.len() == 1, "page-length"); sv::check(x[0] == if i < 2 { items[i] } else { v }, "page-items") } None => sv::fail("page-missing") } }
        full_matches(&p.as_hash_tree(), &e, "exposed-contents");
        sv::check(same(&rebuild(&p.as_hash_tree()), &p.root_hash()), "stale-root-hash");
    }
    sv::cover("end");
}
/// Two stored collections with the same root hash have the same pages.
fn stored_distinct() {
    let mk = || {
        let (k, a, b, v) = (sv::u8(), sv::u32(), sv::u32(), sv::vec(2));
        sv::assume(a < b);
        let st = Stored { data: StoredMap(vec![(StoredKey { key: k, page: a }, vec![v[0]]), (StoredKey { key: k, page: b }, vec![v[1]])]) };
        let p: Option<Paged<u8, u8, 1>> = serde_cbor::from_slice(&serde_cbor::to_vec(&st).unwrap()).ok();
        (p, k, a, b, v)
    };
    let (x, y) = (mk(), mk());
    match (&x.0, &y.0) {
        (Some(p), Some(q)) => if same(&p.root_hash(), &q.root_hash()) { sv::check(x.1 == y.1, "same-hash-different-key"); sv::check(x.2 == y.2 && x.3 == y.3, "same-hash-different-page"); sv::check(sv::eq(&x.4, &y.4), "same-hash-different-item") },
        _ => sv::cover("another form"),
    }
    sv::cover("end");
}

/// A page of a key, as an entry of the map behind the collection.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Page(Vec<u8>);
impl Page { fn new<K: Key>(k: &K, p: u32) -> Page { let mut b = k.bytes(); b.extend(p.to_be_bytes()); Page(b) } }
impl Label for Page { fn as_label(&self) -> std::borrow::Cow<[u8]> { (&self.0[..]).into() } }
impl Key for Page { fn fresh() -> Self { unreachable!() } fn bytes(&self) -> Vec<u8> { self.0.clone() } }
pub fn entries<K: Key, const S: usize>(m: &Items<K>) -> M<Page, Seq<u8>> {
    let mut r = vec![];
    for (k, items) in m { for (i, c) in items.chunks(S).enumerate() { r.push((Page::new(k, i as u32), Seq::from(c))) } }
    r
}
#[derive(PartialEq)]
pub enum Found<'t, 'a> { Here(&'t HashTree<'a>), Absent, Unknown }
/// find_label of the interface specification.
pub fn find_label<'t, 'a>(t: &'t HashTree<'a>, l: &[u8]) -> Found<'t, 'a> {
    let mut f = vec![];
    flatten(t, &mut f);
    if f.is_empty() || (f.len() == 1 && matches!(f[0], HashTree::Leaf(_))) { return Found::Absent; }
    for x in &f { if let HashTree::Labeled(k, s) = x { if sv::eq(k, l) { return Found::Here(s); } } }
    let label = |i: usize| match f.get(i) { Some(HashTree::Labeled(k, _)) => Some(&k[..]), _ => None };
    if let Some(b) = label(0) { if l < b { return Found::Absent; } }
    for i in 1..f.len() { if let (Some(a), Some(b)) = (label(i - 1), label(i)) { if a < l && l < b { return Found::Absent; } } }
    if let Some(a) = label(f.len() - 1) { if a < l { return Found::Absent; } }
    Found::Unknown
}
fn page_witness<K: Key, const S: usize>((p, m): (Paged<K, u8, S>, Items<K>)) {
    let root = p.root_hash();
    let e = entries::<K, S>(&m);
    let full = p.as_hash_tree();
    full_matches(&full, &e, "exposed-contents");
    sv::check(same(&rebuild(&full), &root), "stale-root-hash");
    let k = K::fresh();
    let items = of(&m, &k);
    let n = pages(items.len(), S);
    if sv::choice(2) == 0 {
        // a page of any number; what is asked for beyond 32 bits has no label of its own
        let j = sv::u64();
        let w = p.witness(&k, j as usize);
        sv::check(same(&w.reconstruct(), &root), "reconstruct");
        let it = crate::model::items(&w, &e, "false-key");
        no_false_absence(&it, e.len(), "false-absence");
        let r = reveal(&it, &e, "false-value");
        if j < n as u64 {
            sv::cover("page");
            let j = sv::conc(j) as usize;
            let at = e.iter().position(|x| x.0 .0 == Page::new(&k, j as u32).0).unwrap();
            sv::check(r[at] == 2, "page-not-shown");
            let want = &items[j * S..items.len().min(j * S + S)];
            match find_label(&w, &e[at].0 .0) { Found::Here(s) => sv::check(shows(s, &Seq::from(want)), "page-commitment"), _ => sv::fail("page-not-found") }
        } else {
            sv::cover("no such page");
            // every page of the key that comes next to the gap is shown, and nothing lies between
            let g = e.iter().position(|x| x.0 .0 > Page::new(&k, n as u32).0).unwrap_or(e.len());
            if g > 0 { sv::check(r[g - 1] != 0, "absence-not-proved") }
            if g < e.len() { sv::check(r[g] != 0, "absence-not-proved") }
            if j <= u32::MAX as u64 { sv::check(find_label(&w, &Page::new(&k, j as u32).0) == Found::Absent, "absence-not-proved") }
        }
    } else {
        let w = p.witness_last_page_number(&k);
        sv::check(same(&w.reconstruct(), &root), "reconstruct");
        let it = crate::model::items(&w, &e, "false-key");
        no_false_absence(&it, e.len(), "false-absence");
        reveal(&it, &e, "false-value");
        if n > 0 { sv::cover("last page"); match find_label(&w, &Page::new(&k, n as u32 - 1).0) { Found::Here(_) => {} _ => sv::fail("last-page-not-shown") } } else { sv::cover("no page") }
        sv::check(find_label(&w, &Page::new(&k, n as u32).0) == Found::Absent, "next-page-absence-not-proved");
    }
    sv::obs_bytes(&root);
}
/// The same where keys may have different lengths: labels are then not always in byte order.
fn page_witness_varying<const S: usize>() {
    let (p, m) = filled::<Vec<u8>, S>();
    let root = p.root_hash();
    let e = entries::<Vec<u8>, S>(&m);
    let k = <Vec<u8> as Key>::fresh();
    let n = pages(of(&m, &k).len(), S) as u32;
    let w = if sv::choice(2) == 0 { p.witness(&k, n as usize) } else { p.witness_last_page_number(&k) };
    sv::check(same(&w.reconstruct(), &root), "reconstruct");
    // do the labels follow the order of the keys, with what is asked for among them?
    let q = Page::new(&k, n);
    let g: usize = m.iter().map(|x| if x.0 <= k { pages(x.1.len(), S) } else { 0 }).sum();
    let mut ordered = true;
    for i in 0..e.len() { if (e[i].0 < q) != (i < g) || (i > 0 && e[i - 1].0 >= e[i].0) { ordered = false } }
    sv::cover("end");
    let last = n == 0 || e.iter().any(|x| x.0 .0 == Page::new(&k, n - 1).0);
    sv::check(last, "model");
    match find_label(&w, &q.0) { Found::Absent => {} Found::Here(_) => sv::fail("absent-page-shown"), Found::Unknown => sv::check(false, if ordered { "absence-not-proved" } else { "absence-not-proved-labels-out-of-order" }) }
}

// ---------- sequences ----------
pub trait Item: AsHashTree + Clone + PartialEq + Default { fn fresh() -> Self; fn hash(&self) -> Hash; fn same(&self, o: &Self) -> bool; }
impl Item for u8 { fn fresh() -> Self { sv::u8() } fn hash(&self) -> Hash { leaf_h(&[*self]) } fn same(&self, o: &Self) -> bool { self == o } }
impl Item for u32 { fn fresh() -> Self { sv::u32() } fn hash(&self) -> Hash { leaf_h(&self.to_be_bytes()) } fn same(&self, o: &Self) -> bool { self == o } }
impl Item for String { fn fresh() -> Self { text(sv::choice(sv::param("len") + 1)) } fn hash(&self) -> Hash { leaf_h(self.as_bytes()) } fn same(&self, o: &Self) -> bool { sv::eq(self.as_bytes(), o.as_bytes()) } }
impl Item for Vec<u8> { fn fresh() -> Self { sv::vec(sv::choice(sv::param("len") + 1)) } fn hash(&self) -> Hash { leaf_h(self) } fn same(&self, o: &Self) -> bool { sv::eq(self, o) } }
impl Item for Seq<u8> { fn fresh() -> Self { let n = sv::choice(sv::param("len") + 1); Seq::from(sv::vec(n)) } fn hash(&self) -> Hash { chain(self.as_ref()) } fn same(&self, o: &Self) -> bool { sv::eq(self.as_ref(), o.as_ref()) } }

fn link(h: Hash, x: &Hash) -> Hash { use sha2::{Digest, Sha256}; let mut d = Sha256::new(); d.update(h); d.update(x); d.finalize().into() }
fn hash_of<T: Item>(m: &[T]) -> Hash { let mut h = [0; 32]; for x in m { h = link(h, &x.hash()) } h }
fn fresh_items<T: Item>(max: usize) -> Vec<T> { (0..sv::choice(max + 1)).map(|_| T::fresh()).collect() }
pub fn agrees<T: Item>(s: &Seq<T>, m: &[T]) {
    sv::check(same(&s.root_hash(), &hash_of(m)), "hash");
    match s.as_hash_tree() { HashTree::Pruned(h) => sv::check(same(&h, &s.root_hash()), "tree"), t => sv::check(same(&rebuild(&t), &s.root_hash()), "tree") }
    reads(s, m);
}
fn reads<T: Item>(s: &Seq<T>, m: &[T]) {
    sv::check(s.len() == m.len(), "length");
    sv::check(s.is_empty() == m.is_empty(), "emptiness");
    sv::check(s.capacity() >= m.len(), "capacity");
    let mut i = 0;
    for x in s.iter() { if i >= m.len() { sv::fail("iteration") } sv::check(x.same(&m[i]), "iteration"); sv::check(s[i].same(&m[i]), "index"); i += 1; }
    sv::check(i == m.len(), "iteration");
    let b: &[T] = s.borrow_();
    let lists: [&[T]; 4] = [s.as_vec(), s.as_ref(), b, &s[..]];
    for l in lists { sv::check(l.len() == m.len(), "slice"); for (x, y) in l.iter().zip(m) { sv::check(x.same(y), "slice") } }
    if m.len() > 1 { let t = &s[1..]; sv::check(t.len() == m.len() - 1 && t[0].same(&m[1]), "index"); let t = &s[..=0]; sv::check(t.len() == 1 && t[0].same(&m[0]), "index") }
    let v: Vec<T> = s.clone().into();
    sv::check(v.len() == m.len(), "into-vec");
    for (x, y) in v.iter().zip(m) { sv::check(x.same(y), "into-vec") }
}
trait Bor<T> { fn borrow_(&self) -> &[T]; }
impl<T: AsHashTree> Bor<T> for Seq<T> { fn borrow_(&self) -> &[T] { std::borrow::Borrow::borrow(self) } }

pub fn constructed<T: Item>() -> (Seq<T>, Vec<T>) {
    let m = fresh_items::<T>(sv::param("n"));
    let mut s = match sv::choice(8) {
        0 => { sv::cover("append"); let mut s = Seq::new(); for x in &m { s.append(x.clone()) } s }
        1 => { sv::cover("from vec"); Seq::from(m.clone()) }
        2 => { sv::cover("from slice"); Seq::from(&m[..]) }
        3 => { sv::cover("from mut slice"); let mut v = m.clone(); Seq::from(&mut v[..]) }
        4 => { sv::cover("collect"); m.iter().cloned().collect() }
        5 => { sv::cover("extend"); let mut s = Seq::default(); s.extend(m.clone()); s }
        6 => { sv::cover("with capacity"); let mut s = Seq::with_capacity(sv::choice(3)); s.extend(m.iter().cloned().filter(|_| true)); s }
        _ => { sv::cover("clone"); let s: Seq<T> = m.iter().cloned().collect(); let t = s.clone(); drop(s); t }
    };
    sv::check(same(&s.root_hash(), &hash_of(&m)), "hash-built");
    let mut m = m;
    let look = sv::param("k") > 0 && sv::choice(2) == 1;
    for _ in 0..sv::param("k") { if look { agrees(&s, &m) } seq_op(&mut s, &mut m) }
    (s, m)
}
fn seq_op<T: Item>(s: &mut Seq<T>, m: &mut Vec<T>) {
    match sv::choice(9) {
        7 => { let v = fresh_items::<T>(2); let mut t: Seq<T> = v.into_iter().collect(); t.clone_from(s); sv::check(t == *s, "equality"); *s = t; sv::cover("over another") }
        0 => { let x = T::fresh(); s.append(x.clone()); m.push(x); sv::cover("then append") }
        1 => { let v = fresh_items::<T>(2); s.extend(v.clone()); m.extend(v); sv::cover("then extend") }
        2 => { s.clear(); m.clear(); sv::check(s.is_empty(), "emptiness"); sv::cover("then clear") }
        3 => { s.reserve(sv::choice(2) * 5); sv::cover("then reserve") }
        4 => { let n = s.len(); s.reserve_exact(3); sv::check(s.capacity() >= n + 3, "capacity"); sv::cover("then reserve exact") }
        5 => { s.shrink_to_fit(); sv::cover("then shrink") }
        6 => { let mut t = s.clone(); let x = T::fresh(); t.append(x.clone()); let mut n = m.clone(); n.push(x); agrees(&t, &n); sv::cover("append to a clone") }
        _ => { let v: Vec<T> = std::mem::take(s).into(); sv::check(same(&s.root_hash(), &[0; 32]), "hash-taken"); sv::check(s.is_empty(), "emptiness"); *s = Seq::from(v); sv::cover("through a vector") }
    }
}
fn sequence<T: Item>() {
    let (s, m) = constructed::<T>();
    agrees(&s, &m);
    sv::obs_bytes(&s.root_hash());
}
/// A sequence that comes back from its serialized form goes on like any other.
fn revived_seq() {
    let (s, mut m) = constructed::<u32>();
    let s: Option<Seq<u32>> = serde_cbor::to_vec(&s).ok().and_then(|b| serde_cbor::from_slice(&b).ok());
    let mut s = match s { Some(s) => s, None => return sv::cover("not revived") };
    if s.len() != m.len() { return sv::cover("not revived") }
    seq_op(&mut s, &mut m);
    agrees(&s, &m);
    sv::cover("end");
}
/// Extending by reference, in parts of any size.
fn by_reference() {
    let (a, b, c) = (fresh_items::<u32>(sv::param("n")), fresh_items::<u32>(2), fresh_items::<u32>(1));
    let mut s: Seq<u32> = Seq::new();
    s.extend(a.iter());
    s.extend(&b);
    for x in &c { s.append(*x) }
    s.extend(a.iter().rev().filter(|x| **x > 7));
    let mut m: Vec<u32> = a.iter().chain(&b).chain(&c).copied().collect();
    m.extend(a.iter().rev().filter(|x| **x > 7));
    agrees(&s, &m);
    sv::obs_bytes(&s.root_hash());
}
/// Sequences are equal exactly when their items are.
fn equality<T: Item>() {
    let (a, b) = (fresh_items::<T>(sv::param("n")), fresh_items::<T>(sv::param("n")));
    let s: Seq<T> = a.iter().cloned().collect();
    let mut t = Seq::new();
    for x in &b { t.append(x.clone()) }
    let eq = a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.same(y));
    sv::check((s == t) == eq, "equality");
    sv::check(same(&s.root_hash(), &t.root_hash()) == eq, "hash-equality");
    sv::cover(if eq { "equal" } else { "different" });
}
fn out_of_range() {
    let s = Seq::from(fresh_items::<u8>(sv::param("n")));
    let i = sv::u64() as usize;
    sv::assume(i >= s.len());
    sv::cover("end");
    sv::expect_panic(true);
    let x = s[i];
    sv::expect_panic(false);
    sv::obs(x as u64);
    sv::fail("index-out-of-range");
}
/// An iterator that says of its length as little or as much as it likes.
struct Hinted<I>(I, usize, usize, usize);
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { let x = self.0.next(); if x.is_some() { self.3 -= 1 } x }
    fn size_hint(&self) -> (usize, Option<usize>) { (match self.1 { 0 => 0, 1 => self.3, _ => self.3 / 2 }, match self.2 { 0 => None, 1 => Some(self.3), 2 => Some(self.3 + 3), _ => Some(usize::MAX) }) }
}
fn hinted<I: ExactSizeIterator>(i: I) -> Hinted<I> { let n = i.len(); Hinted(i, sv::choice(3), sv::choice(4), n) }
fn any_iterator() {
    let (a, b) = (fresh_items::<u32>(2), fresh_items::<u32>(sv::param("n")));
    let mut s: Seq<u32> = match sv::choice(2) { 0 => Seq::from(a.clone()), _ => hinted(a.iter().copied()).collect() };
    match sv::choice(3) {
        0 => s.extend(hinted(b.iter().copied())),
        1 => s.extend(hinted(b.iter())),
        _ => { let mut o = 0; s.extend(std::iter::from_fn(|| { o += 1; b.get(o - 1) })) }
    }
    let m: Vec<u32> = a.iter().chain(&b).copied().collect();
    agrees(&s, &m);
    sv::obs_bytes(&s.root_hash());
    sv::cover("end");
}
/// Long sequences grow by different ways at any length.
fn long_steps() {
    let n = sv::param("n");
    let v: Vec<u8> = sv::vec(n);
    let way = sv::choice(5);
    let mut s: Seq<u8> = Seq::new();
    let mut at = 0;
    let mut i = 0;
    while at < n {
        let c = [1usize, 2, 7, 16, 33, 64, 100][i % 7].min(n - at);
        let x = &v[at..at + c];
        match (way + i) % 5 { 0 => s.extend(x), 1 => s.extend(x.to_vec()), 2 => for y in x { s.append(*y) }, 3 => { let mut w: Vec<u8> = std::mem::take(&mut s).into(); w.extend(x); s = w.into() } _ => { let mut t = s.clone(); t.reserve(c); t.extend(x.iter()); s = t } }
        at += c;
        i += 1;
        sv::check(s.len() == at, "length");
        sv::check(same(&s.root_hash(), &chain(&v[..at])), "hash");
    }
    sv::check(sv::eq(s.as_ref(), &v), "items");
    for i in [0, n / 2, n - 1] { sv::check(s[i] == v[i], "index") }
    let t: Seq<u8> = s.iter().copied().collect();
    sv::check(t == s && same(&t.root_hash(), &s.root_hash()), "equality");
    s.clear();
    sv::check(s.is_empty() && same(&s.root_hash(), &[0; 32]), "hash");
    sv::cover("end");
}
/// Thousands of items, in few steps.
fn huge_sequence() {
    let n = sv::param("n");
    let mut v: Vec<u8> = (0..n).map(|i| (i * 31 + i / 256) as u8).collect();
    for i in [0, n / 3, n - 1] { v[i] = sv::u8() }
    let s: Seq<u8> = match sv::choice(9) {
        0 => v.clone().into(),
        1 => v[..].into(),
        2 => (&mut v.clone()[..]).into(),
        3 => v.iter().copied().collect(),
        4 => { let mut s = Seq::new(); s.extend(&v); s }
        5 => { let mut s: Seq<u8> = v[..n / 2].into(); s.extend(v[n / 2..].to_vec()); s }
        6 => { let mut s = Seq::with_capacity(n / 2); for x in &v { s.append(*x) } s }
        7 => { let mut s: Seq<u8> = v[..3].into(); s.extend(hinted(v[3..].iter())); s }
        _ => { let mut s: Seq<u8> = v[..3].into(); s.extend(hinted(v[3..].iter().copied())); s }
    };
    sv::check(s.len() == n, "length");
    sv::check(same(&s.root_hash(), &chain(&v)), "hash");
    sv::check(sv::eq(s.as_ref(), &v), "items");
    let mut t = s.clone();
    sv::check(t == s, "equality");
    t.append(v[0]);
    v.push(v[0]);
    sv::check(t != s, "equality");
    sv::check(same(&t.root_hash(), &chain(&v)), "hash");
    sv::cover("end");
}
/// Longer sequences, in two parts.
fn long_sequence() {
    let n = sv::param("n");
    let v: Vec<u8> = sv::vec(n);
    let cut = sv::choice(n + 1);
    let mut s: Seq<u8> = v[..cut].into();
    match sv::choice(3) { 0 => s.extend(&v[cut..]), 1 => s.extend(v[cut..].to_vec()), _ => for x in &v[cut..] { s.append(*x) } }
    sv::check(same(&s.root_hash(), &chain(&v)), "hash");
    sv::check(sv::eq(s.as_ref(), &v), "items");
    sv::obs_bytes(&s.root_hash());
    sv::cover("end");
}

harness! {
    fn c13_s1() { page_contents(filled::<u8, 1>()) }
    fn c13_s2() { page_contents(filled::<u8, 2>()) }
    fn c13_s3() { page_contents(filled::<u8, 3>()) }
    fn c13_u16() { page_contents(filled::<u16, 2>()) }
    fn c13_vec() { page_contents(filled::<Vec<u8>, 2>()) }
    fn c13_string() { page_contents(filled::<String, 2>()) }
    fn c13_long1() { page_contents(filled_ranked::<u8, 1>()) }
    fn c13_long2() { page_contents(filled_ranked::<u8, 2>()) }
    fn c13_long3() { page_contents(filled_ranked::<u8, 3>()) }
    fn c13_long5() { page_contents(filled_ranked::<u16, 5>()) }

    fn c13_many1() { many_pages::<u8, 1>() }
    fn c13_many3() { many_pages::<Vec<u8>, 3>() }
    fn c13_many300() { many_pages::<u8, 300>() }
    fn c13_revived() { revived::<3>() }
    fn c13_stored() { stored_pages() }

    fn c14_many1() { many_witnesses::<u8, 1>() }
    fn c14_many2() { many_witnesses::<u16, 2>() }
    fn c14_stored() { stored_pages() }
    fn c14_s1() { page_witness(filled::<u8, 1>()) }
    fn c14_s2() { page_witness(filled::<u8, 2>()) }
    fn c14_s3() { page_witness(filled::<u8, 3>()) }
    fn c14_u16() { page_witness(filled::<u16, 2>()) }
    fn c14_long1() { page_witness(filled_ranked::<u8, 1>()) }
    fn c14_long2() { page_witness(filled_ranked::<u8, 2>()) }
    fn c14_long3() { page_witness(filled_ranked::<u8, 3>()) }
    fn c14_varying() { page_witness_varying::<1>() }

    fn c16_stored() { stored_distinct() }
    fn c15_u8() { sequence::<u8>() }
    fn c15_u32() { sequence::<u32>() }
    fn c15_string() { sequence::<String>() }
    fn c15_vec() { sequence::<Vec<u8>>() }
    fn c15_seq() { sequence::<Seq<u8>>() }
    fn c15_revived() { revived_seq() }
    fn c15_by_reference() { by_reference() }
    fn c15_any_iterator() { any_iterator() }
    fn c15_steps() { long_steps() }
    fn c15_equality_u8() { equality::<u8>() }
    fn c15_equality_vec() { equality::<Vec<u8>>() }
    fn c15_out_of_range() { out_of_range() }
    fn c15_huge() { huge_sequence() }
    fn c15_long() { long_sequence() }
}
