//! Values and labels: C19, C20.
use crate::model::*;
use crate::sv;
use candid::{Nat, Principal};
use certified_vars::label::{Label, Prefix};
use certified_vars::{AsHashTree, Hash, HashTree, Map};
use std::borrow::Borrow;
use std::ptr::NonNull;
use std::rc::Rc;
use std::sync::Arc;

/// A value of any type, with the encoding the documentation gives for it.
trait Any: Sized { fn any() -> Self; fn enc(&self) -> Vec<u8>; }
macro_rules! num { ($($t:ident $n:literal),*) => { $( impl Any for $t { fn any() -> Self { wide::<$n>() as $t } fn enc(&self) -> Vec<u8> { let x = *self as u128; (0..$n).rev().map(|i| (x >> (8 * i)) as u8).collect() } } )* } }
/// n bytes as a number, most significant first.
fn wide<const N: usize>() -> u128 { let b: [u8; N] = sv::bytes(); let mut x = 0; for y in b { x = x << 8 | y as u128 } x }
num!(u8 1, i8 1, u16 2, i16 2, u32 4, i32 4, u64 8, i64 8, u128 16, i128 16, usize 8, isize 8);
impl Any for f32 { fn any() -> Self { f32::from_bits(sv::u32()) } fn enc(&self) -> Vec<u8> { Any::enc(&self.to_bits()) } }
impl Any for f64 { fn any() -> Self { f64::from_bits(sv::u64()) } fn enc(&self) -> Vec<u8> { Any::enc(&self.to_bits()) } }
impl Any for bool { fn any() -> Self { sv::u8() & 1 == 1 } fn enc(&self) -> Vec<u8> { vec![*self as u8] } }
/// Lengths around those at which buffers, blocks and length prefixes change.
const LENGTHS: [usize; 18] = [8, 9, 16, 17, 31, 32, 33, 40, 55, 56, 63, 64, 65, 128, 255, 256, 257, 1025];
/// A length: up to len, or with len over 1000 one of the first of LENGTHS.
fn size() -> usize { let n = sv::param("len"); if n > 1000 { LENGTHS[sv::choice(n - 1000)] } else { sv::choice(n + 1) } }
impl Any for Vec<u8> { fn any() -> Self { sv::vec(size()) } fn enc(&self) -> Vec<u8> { self.clone() } }
impl Any for Box<[u8]> { fn any() -> Self { <Vec<u8> as Any>::any().into() } fn enc(&self) -> Vec<u8> { self.to_vec() } }
impl Any for &[u8] { fn any() -> Self { Box::leak(<Vec<u8> as Any>::any().into_boxed_slice()) } fn enc(&self) -> Vec<u8> { self.to_vec() } }
/// Text with multi-byte characters here and there.
fn any_text() -> String { let s = text(size()); match sv::choice(4) { 0 => s, 1 => s + &wide_char(2), 2 => wide_char(3) + &s, _ => wide_char(4) + &s } }
impl Any for String { fn any() -> Self { any_text() } fn enc(&self) -> Vec<u8> { self.as_bytes().to_vec() } }
impl Any for &str { fn any() -> Self { Box::leak(any_text().into_boxed_str()) } fn enc(&self) -> Vec<u8> { self.as_bytes().to_vec() } }
impl<const N: usize> Any for [u8; N] { fn any() -> Self { sv::bytes() } fn enc(&self) -> Vec<u8> { self.to_vec() } }
impl Any for Principal { fn any() -> Self { let max = sv::param("plen"); let n = if max > 29 { 29 } else { sv::choice(max + 1) }; Principal::from_slice(&sv::vec(n)) } fn enc(&self) -> Vec<u8> { self.as_slice().to_vec() } }
impl Any for Nat {
    fn any() -> Self { match sv::choice(3) { 0 => Nat::from(sv::u64()), 1 => Nat::from(wide::<16>()), _ => Nat::from(sv::u8() as u64) } }
    /// Big-endian without leading zeros, zero as one byte.
    fn enc(&self) -> Vec<u8> {
        let d = self.0.to_u64_digits();
        let mut v: Vec<u8> = vec![];
        for x in d.iter().rev() { v.extend(Any::enc(x)) }
        let z = v.iter().take_while(|b| **b == 0).count();
        if z == v.len() { vec![0] } else { v[z..].to_vec() }
    }
}
impl<T: Any> Any for Box<T> { fn any() -> Self { Box::new(T::any()) } fn enc(&self) -> Vec<u8> { (**self).enc() } }
impl<T: Any> Any for Rc<T> { fn any() -> Self { Rc::new(T::any()) } fn enc(&self) -> Vec<u8> { (**self).enc() } }
impl<T: Any> Any for Arc<T> { fn any() -> Self { Arc::new(T::any()) } fn enc(&self) -> Vec<u8> { (**self).enc() } }
impl<T: Any> Any for NonNull<T> { fn any() -> Self { NonNull::from(Box::leak(Box::new(T::any()))) } fn enc(&self) -> Vec<u8> { unsafe { self.as_ref() }.enc() } }

// ---------- C19 ----------
fn is_leaf(t: &HashTree, e: &[u8]) { match t { HashTree::Leaf(d) => sv::check(d.len() == e.len() && sv::eq(d, e), "leaf-content"), _ => sv::fail("not-a-leaf") } }
fn value<T: Any + AsHashTree>() {
    let v = T::any();
    let e = v.enc();
    let t = v.as_hash_tree();
    is_leaf(&t, &e);
    let r = v.root_hash();
    sv::check(same(&r, &leaf_h(&e)), "root-hash");
    sv::check(same(&r, &rebuild(&t)), "tree-hash");
    sv::obs_bytes(&r);
}
fn distinct<T: Any + AsHashTree>() {
    let (a, b) = (T::any(), T::any());
    let (x, y) = (a.enc(), b.enc());
    if same(&a.root_hash(), &b.root_hash()) { sv::check(x.len() == y.len() && sv::eq(&x, &y), "same-hash-different-value") }
}
fn both<T: Any + AsHashTree>() { if sv::choice(2) == 0 { value::<T>() } else { distinct::<T>() } sv::cover("end") }
/// A whole collection behind a wrapper.
fn wrapped_map() {
    let s: State<Map<u8, u8>, u8, u8> = build();
    let root = s.map.root_hash();
    let want = rebuild(&s.map.as_hash_tree());
    let check = |t: HashTree, h: Hash| { sv::check(same(&h, &root), "root-hash"); sv::check(same(&rebuild(&t), &want), "tree-hash"); full_matches(&t, &s.m, "contents") };
    let m = s.map;
    match sv::choice(4) {
        0 => { let b = Box::new(m); check(b.as_hash_tree(), b.root_hash()) }
        1 => { let b = Rc::new(m); check(b.as_hash_tree(), b.root_hash()) }
        2 => { let b = Arc::new(Box::new(m)); check(b.as_hash_tree(), b.root_hash()) }
        _ => { let b = NonNull::from(Box::leak(Box::new(m))); check(b.as_hash_tree(), b.root_hash()) }
    }
    sv::cover("end");
}
macro_rules! by_choice { ($f:ident: $($t:ty),* $(,)?) => { { let fs: &[fn()] = &[$($f::<$t>),*]; fs[sv::choice(fs.len())]() } } }

// ---------- C20 ----------
fn cmp_bytes(a: &[u8], b: &[u8]) -> std::cmp::Ordering {
    for i in 0..a.len().min(b.len()) { if a[i] != b[i] { return a[i].cmp(&b[i]); } }
    a.len().cmp(&b.len())
}
fn labels<T: Any + Label>(a: &T, b: &T, order_tag: &str, equal_tag: &str) {
    let (x, y) = (a.as_label(), b.as_label());
    sv::check(sv::eq(&x, &a.enc()), "label-content");
    let c = cmp_bytes(&x, &y);
    sv::check((a == b) == (c == std::cmp::Ordering::Equal), equal_tag);
    if c != std::cmp::Ordering::Equal { sv::check(a.cmp(b) == c, order_tag) }
    sv::cover(if c == std::cmp::Ordering::Equal { "equal" } else { "different" });
}
fn unsigned<T: Any + Label>() { labels(&T::any(), &T::any(), "label-order", "label-equality") }
fn signed<T: Any + Label>() {
    let (a, b) = (T::any(), T::any());
    let neg = |x: &T| x.enc()[0] >= 128;
    let tag = if neg(&a) != neg(&b) { "label-order-negative-and-positive" } else { "label-order" };
    labels(&a, &b, tag, "label-equality")
}
fn principal() {
    let (a, b) = (Principal::any(), Principal::any());
    let tag = if a.as_slice().len() != b.as_slice().len() { "label-order-principal-lengths" } else { "label-order" };
    labels(&a, &b, tag, "label-equality")
}
fn nonnull() {
    let (a, b) = (NonNull::<u8>::any(), NonNull::<u8>::any());
    labels(&a, &b, "label-order-by-address", "label-equality-by-address");
    labels(&a, &a.clone(), "label-order", "label-equality");
}
/// A key has a prefix exactly when it starts with it; the keys that have it are neighbours.
fn prefixed<K: Any + Prefix<P>, P: Ord + ?Sized, B: Borrow<P> + Any>() {
    let (k, p) = (K::any(), B::any());
    let starts = |k: &K| { let (k, p) = (k.enc(), p.enc()); p.len() <= k.len() && sv::eq(&k[..p.len()], &p) };
    let has = starts(&k);
    sv::check(k.is_prefix(p.borrow()) == has, "is-prefix");
    sv::cover(if has { "prefix" } else { "no prefix" });
    let x: &P = k.borrow();
    if has { sv::check(x >= p.borrow(), "prefix-order") }
    if sv::param("three") == 1 {
        let (a, b) = (K::any(), K::any());
        sv::assume(a <= k && k <= b);
        if a.is_prefix(p.borrow()) && b.is_prefix(p.borrow()) { sv::check(has, "prefix-contiguous") }
    }
}
/// Long keys, and prefixes of them that differ in one byte at most.
fn long_prefix<K: Any + Prefix<P>, P: Ord + ?Sized, B: Borrow<P>>(key: fn(Vec<u8>) -> K, prefix: fn(Vec<u8>) -> B) {
    let n = size();
    let mut p = sv::vec(n);
    for b in &p { sv::assume(*b < 128) }
    let mut k = p.clone();
    let more = sv::vec(sv::choice(3));
    for b in &more { sv::assume(*b < 128) }
    k.extend_from_slice(&more);
    let i = [0, n / 2, n - 1][sv::choice(3)];
    let x = sv::u8();
    sv::assume(x < 128);
    let has = p[i] == x;
    p[i] = x;
    let longer = sv::choice(2) == 1;
    if longer { p.extend_from_slice(&more); p.push(x) }
    let (k, p) = (key(k), prefix(p));
    sv::check(k.is_prefix(p.borrow()) == (has && !longer), "is-prefix");
    let c: &P = k.borrow();
    if has && !longer { sv::check(c >= p.borrow(), "prefix-order") }
    sv::cover("end");
}
/// Labels of long keys.
fn long_label<T: Any + Label>() { let a = T::any(); sv::check(sv::eq(&a.as_label(), &a.enc()), "label-content"); sv::cover("end") }
/// Numbers of several digits, with zeros at the end.
struct Big(Nat);
impl Any for Big { fn any() -> Self { Big(Nat(Nat::from(sv::u64()).0 << [64usize, 192, 200, 1001][sv::choice(4)])) } fn enc(&self) -> Vec<u8> { self.0.enc() } }
impl AsHashTree for Big { fn root_hash(&self) -> Hash { self.0.root_hash() } fn as_hash_tree(&self) -> HashTree<'_> { self.0.as_hash_tree() } }
fn long_value<T: Any + AsHashTree>() { value::<T>(); sv::cover("end") }
/// A key type whose leading component is its prefix, by the default test.
fn default_prefix() {
    let (k, p) = (<Comp as Key>::fresh(), sv::u8());
    sv::check(k.is_prefix(&p) == (k.a == p), "is-prefix");
    sv::cover("end");
}
/// What a map exposes as the label of an entry is the key's label.
fn exposed<T: Any + Label + Clone + 'static>() {
    let (a, b) = (T::any(), T::any());
    sv::assume(a < b);
    let mut m: Map<T, u8> = Map::new();
    m.insert(b.clone(), 1);
    m.insert(a.clone(), 0);
    let t = m.as_hash_tree();
    let l = t.get_labels();
    sv::check(l.len() == 2, "exposed-count");
    sv::check(sv::eq(l[0], &a.enc()) && sv::eq(l[1], &b.enc()), "exposed-label");
    sv::cover("end");
}

harness! {
    fn c19_numbers() { by_choice!(both: u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize, f32, f64, bool) }
    fn c19_bytes() { by_choice!(both: Vec<u8>, &[u8], String, &str) }
    fn c19_arrays() { by_choice!(both: [u8; 1], [u8; 2], [u8; 3], [u8; 4], [u8; 5], [u8; 6], [u8; 7], [u8; 8], [u8; 9], [u8; 10], [u8; 11], [u8; 12], [u8; 13], [u8; 14], [u8; 15], [u8; 16],
        [u8; 17], [u8; 18], [u8; 19], [u8; 20], [u8; 21], [u8; 22], [u8; 23], [u8; 24], [u8; 25], [u8; 26], [u8; 27], [u8; 28], [u8; 29], [u8; 30], [u8; 31], [u8; 32]) }
    fn c19_principal() { both::<Principal>() }
    fn c19_nat() { both::<Nat>() }
    fn c19_wrappers() { by_choice!(both: Box<u32>, Rc<u32>, Arc<u32>, NonNull<u32>, Box<Vec<u8>>, Rc<Vec<u8>>, Arc<String>, NonNull<String>, Box<Rc<Arc<u64>>>, Box<bool>, Rc<Principal>) }
    fn c19_long() { by_choice!(long_value: Vec<u8>, &[u8], String, &str, Box<Vec<u8>>) }
    fn c19_nat_big() { long_value::<Big>() }
    fn c19_wrapped_map() { wrapped_map() }

    fn c20_unsigned() { by_choice!(unsigned: u8, u16, u32, u64, u128, usize, bool) }
    fn c20_signed() { by_choice!(signed: i8, i16, i32, i64, i128, isize) }
    fn c20_bytes() { by_choice!(unsigned: Vec<u8>, Box<[u8]>, String) }
    fn c20_arrays() { by_choice!(unsigned: [u8; 1], [u8; 2], [u8; 3], [u8; 4], [u8; 5], [u8; 6], [u8; 7], [u8; 8], [u8; 9], [u8; 10], [u8; 11], [u8; 12], [u8; 13], [u8; 14], [u8; 15], [u8; 16],
        [u8; 17], [u8; 18], [u8; 19], [u8; 20], [u8; 21], [u8; 22], [u8; 23], [u8; 24], [u8; 25], [u8; 26], [u8; 27], [u8; 28], [u8; 29], [u8; 30], [u8; 31], [u8; 32]) }
    fn c20_principal() { principal() }
    fn c20_wrappers() { by_choice!(unsigned: Box<u16>, Rc<u16>, Arc<u16>, Box<Vec<u8>>, Rc<String>, Arc<Vec<u8>>, Box<Rc<u8>>) }
    fn c20_nonnull() { nonnull() }
    fn c20_prefix_vec() { prefixed::<Vec<u8>, [u8], Vec<u8>>() }
    fn c20_prefix_box() { prefixed::<Box<[u8]>, [u8], Vec<u8>>() }
    fn c20_prefix_string() { prefixed::<String, str, String>() }
    fn c20_prefix_arrays() { by_choice!(arr: A<1>, A<2>, A<3>, A<4>, A<5>, A<8>, A<16>, A<29>, A<31>, A<32>) }
    fn c20_long_prefix() { match sv::choice(3) { 0 => long_prefix::<Vec<u8>, [u8], Vec<u8>>(|v| v, |v| v), 1 => long_prefix::<Box<[u8]>, [u8], Vec<u8>>(|v| v.into(), |v| v), _ => long_prefix::<String, str, String>(utf8, utf8) } }
    fn c20_long() { by_choice!(long_label: Vec<u8>, Box<[u8]>, String, Rc<Vec<u8>>, Arc<String>) }
    fn c20_prefix_default() { default_prefix() }
    fn c20_exposed() { by_choice!(exposed: u8, u16, u32, u64, u128, usize, bool, i8, i16, i32, i64, i128, isize, Vec<u8>, Box<[u8]>, String, [u8; 3], [u8; 32], Principal, Box<u8>, Rc<String>, Arc<u16>) }
}
fn utf8(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
struct A<const N: usize>;
trait Arr { fn go(); }
macro_rules! arrs { ($($n:literal),*) => { $( impl Arr for A<$n> { fn go() { prefixed::<[u8; $n], [u8], Vec<u8>>() } } )* } }
arrs!(1, 2, 3, 4, 5, 8, 16, 29, 31, 32);
fn arr<T: Arr>() { T::go() }
