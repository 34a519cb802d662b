//! Serialization of the collections: C24.
use crate::model::*;
use crate::store::{agrees, constructed, entries, filled, filled_ranked, pages, put, put_value, Item, Items};
use crate::sv;
use candid::{decode_one, encode_one, CandidType};
use certified_vars::{AsHashTree, Hash, HashTree, Map, Paged, Seq};
use serde::{de::DeserializeOwned, Deserialize, Serialize, Serializer};

#[derive(Clone, Copy, PartialEq)]
enum Fmt { Cbor, Candid }
fn encode<T: Serialize + CandidType>(f: Fmt, x: &T) -> Vec<u8> {
    match f { Fmt::Cbor => serde_cbor::to_vec(x).unwrap_or_else(|_| sv::fail("encode")), Fmt::Candid => encode_one(x).unwrap_or_else(|_| sv::fail("encode")) }
}
fn decode<T: DeserializeOwned + CandidType>(f: Fmt, b: &[u8]) -> T {
    match f { Fmt::Cbor => serde_cbor::from_slice(b).unwrap_or_else(|_| sv::fail("decode")), Fmt::Candid => decode_one(b).unwrap_or_else(|_| sv::fail("decode")) }
}
/// Pairs written as a map, in whatever order.
struct Pairs<'a, K, V>(&'a [(K, V)], bool);
impl<'a, K: Serialize, V: Serialize> Serialize for Pairs<'a, K, V> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut s = s.serialize_map(if self.1 { Some(self.0.len()) } else { None })?;
        for (k, v) in self.0 { s.serialize_entry(k, v)? }
        s.end()
    }
}

// ---------- maps ----------
fn map_agrees<K: Key, V: Val>(d: &Map<K, V>, m: &[(K, V)], tag: &str) {
    sv::check(d.len() == m.len() && d.is_empty() == m.is_empty(), tag);
    let mut i = 0;
    for (k, v) in d.iter() { if i >= m.len() { sv::fail(tag) } sv::check(*k == m[i].0 && v.same(&m[i].1), tag); i += 1; }
    sv::check(i == m.len(), tag);
    for (k, v) in m { match d.get(k) { Some(x) => sv::check(x.same(v), tag), None => sv::fail(tag) } }
    let t = d.as_hash_tree();
    full_matches(&t, m, tag);
    sv::check(same(&rebuild(&t), &d.root_hash()), "root-hash");
}
/// The root hash is that of a map that got these entries one by one.
fn as_by_hand<K: Key, V: Val>(d: &Map<K, V>, arrivals: &[(K, V)]) {
    let mut h = Map::new();
    for (k, v) in arrivals { h.insert(k.clone(), v.clone()); }
    sv::check(same(&h.root_hash(), &d.root_hash()), "root-hash-by-hand");
}
fn map_trip<K: Key + Serialize + DeserializeOwned + CandidType, V: Val + Serialize + DeserializeOwned + CandidType>(f: Fmt) {
    let s = build::<Map<K, V>, K, V>();
    let before = s.map.root_hash();
    let b = encode(f, &s.map);
    sv::obs_bytes(&b);
    sv::check(same(&before, &s.map.root_hash()), "encoding-changes-the-map");
    let mut d: Map<K, V> = decode(f, &b);
    map_agrees(&d, &s.m, "contents");
    as_by_hand(&d, &s.m);
    // a second trip gives the same bytes
    let c = encode(f, &d);
    sv::check(sv::eq(&b, &c), "second-encoding");
    if s.m.len() > 1 { sv::cover("several entries") } else { sv::cover("few entries") }
    // and the decoded map goes on as usual
    let (k, v) = (K::fresh(), V::fresh());
    let mut m = s.m;
    d.insert(k.clone(), v.clone());
    match place(&m, &k) { At::Key(i) => m[i].1 = v, At::Gap(g) => m.insert(g, (k, v)) }
    map_agrees(&d, &m, "contents-after-insert");
    sv::obs_bytes(&d.root_hash());
}
/// Entries arriving unsorted or repeated.
fn map_arrivals<K: Key + Serialize + DeserializeOwned + CandidType, V: Val + Serialize + DeserializeOwned + CandidType>(f: Fmt) {
    let n = sv::choice(sv::param("n") + 1);
    let a: Vec<(K, V)> = (0..n).map(|_| (K::fresh(), V::fresh())).collect();
    let sized = f == Fmt::Candid || sv::choice(2) == 1;
    let b = match f { Fmt::Cbor => serde_cbor::to_vec(&Pairs(&a, sized)).unwrap_or_else(|_| sv::fail("encode")), Fmt::Candid => encode_one(&a).unwrap_or_else(|_| sv::fail("encode")) };
    sv::obs_bytes(&b);
    let d: Map<K, V> = decode(f, &b);
    let mut m: Vec<(K, V)> = vec![];
    for (k, v) in &a { match place(&m, k) { At::Key(i) => { m[i].1 = v.clone(); sv::cover("repeated") } At::Gap(g) => { if g < m.len() { sv::cover("unsorted") } m.insert(g, (k.clone(), v.clone())) } } }
    map_agrees(&d, &m, "arrivals");
    as_by_hand(&d, &a);
    sv::obs_bytes(&d.root_hash());
}
/// More entries than symbolic shapes reach.
fn map_long(f: Fmt) {
    let n = sv::param("n");
    let keys = increasing::<u16>(n);
    let mut a: Vec<(u16, u8)> = keys.into_iter().map(|k| (k, sv::u8())).collect();
    let m = a.clone();
    // an order of arrival: stepping through the keys
    let step = [1, 3, 5, 7][sv::choice(4)];
    let mut i = 0;
    let a: Vec<(u16, u8)> = (0..n).map(|_| { let x = m[i % n].clone(); i += step; x }).collect();
    let mut map: Map<u16, u8> = a.iter().cloned().collect();
    let d: Map<u16, u8> = decode(f, &encode(f, &map));
    let mut seen = vec![];
    for (k, v) in &a { if let At::Gap(g) = place(&seen, k) { seen.insert(g, (*k, *v)) } }
    map_agrees(&d, &seen, "contents");
    as_by_hand(&d, &seen);
    sv::cover("end");
}
const SIZES: [usize; 10] = [23, 24, 25, 40, 64, 127, 128, 255, 256, 300];
fn fmt() -> Fmt { if sv::choice(2) == 0 { Fmt::Cbor } else { Fmt::Candid } }
/// Fixed values, because the encoding of each would depend on it; a few are symbolic.
trait Fixed: Val { fn fixed(i: usize) -> Self; }
fn byte(i: usize) -> u8 { if i == 11 || i == 21 { sv::u8() } else { (i * 37 + i / 256 * 5) as u8 } }
impl Fixed for u8 { fn fixed(i: usize) -> u8 { byte(i) } }
impl Fixed for Seq<u8> { fn fixed(i: usize) -> Self { (0..i % 4).map(|j| byte(i + j)).collect() } }
/// Large maps with fixed keys, arriving in one of several orders and in part twice.
fn map_big<V: Fixed + Serialize + DeserializeOwned + CandidType>() {
    let n = SIZES[sv::choice(sv::param("kinds"))];
    let (rule, f, twice) = (sv::choice(5), fmt(), sv::choice(3));
    let mut a: Vec<(u16, V)> = (0..n).map(|i| (u16::nth(order(rule, i, n)), V::fixed(i))).collect();
    for i in 0..match twice { 0 => 0, 1 => 1, _ => n / 5 } { a.push((u16::nth(order((rule + 2) % 5, i, n)), V::fixed(n + i))); }
    let mut m: Vec<(u16, V)> = vec![];
    for (k, v) in &a { match m.binary_search_by(|x| x.0.cmp(k)) { Ok(i) => m[i].1 = v.clone(), Err(g) => m.insert(g, (*k, v.clone())) } }
    let d: Map<u16, V> = if rule == 0 && twice == 0 {
        let map: Map<u16, V> = a.iter().cloned().collect();
        decode(f, &encode(f, &map))
    } else { match f { Fmt::Cbor => serde_cbor::from_slice(&serde_cbor::to_vec(&Pairs(&a, sv::choice(2) == 1)).unwrap_or_else(|_| sv::fail("encode"))).unwrap_or_else(|_| sv::fail("decode")), Fmt::Candid => decode(f, &encode_one(&a).unwrap_or_else(|_| sv::fail("encode"))) } };
    map_agrees(&d, &m, "contents");
    let back: Map<u16, V> = decode(f, &encode(f, &d));
    map_agrees(&back, &m, "contents");
    as_by_hand(&back, &m);
    sv::cover("end");
}
/// Long sequences.
fn seq_big() {
    let n = SIZES[sv::choice(sv::param("kinds"))];
    let f = fmt();
    match sv::choice(2) {
        0 => { let m: Vec<u8> = (0..n).map(byte).collect(); let s: Seq<u8> = m.clone().into(); let mut d: Seq<u8> = decode(f, &encode(f, &s)); sv::check(sv::eq(d.as_ref(), &m), "items"); sv::check(same(&d.root_hash(), &chain(&m)), "hash"); d.append(7); let mut m = m; m.push(7); sv::check(same(&d.root_hash(), &chain(&m)), "hash") }
        _ => { let m: Vec<u32> = (0..n as u32).map(|i| i * 7919 + 1).collect(); let s: Seq<u32> = m.iter().copied().collect(); let d: Seq<u32> = decode(f, &encode(f, &s)); agrees(&d, &m) }
    }
    sv::cover("end");
}
/// Many pages.
fn paged_big() {
    let n = SIZES[sv::choice(sv::param("kinds"))];
    let f = fmt();
    let (mut p, mut m) = (Paged::<u8, u8, 1>::new(), vec![]);
    let mut q = Paged::<u16, u8, 3>::new();
    let mut o = vec![];
    for i in 0..n { put_value(&mut p, &mut m, if i % 9 == 4 { 2 } else { 7 }, byte(i)); put_value(&mut q, &mut o, u16::nth(order(2, i, n) % 40), byte(i + 100)) }
    let d: Paged<u8, u8, 1> = decode(f, &encode(f, &p));
    paged_agrees(&d, &m, "pages");
    let mut d: Paged<u16, u8, 3> = decode(f, &encode(f, &q));
    paged_agrees(&d, &o, "pages");
    let mut h = Paged::<u16, u8, 3>::new();
    for (k, items) in &o { for x in items { h.insert(k.clone(), *x) } }
    sv::check(same(&d.root_hash(), &h.root_hash()), "root-hash-by-hand");
    put_value(&mut d, &mut o, u16::nth(5), byte(21));
    paged_agrees(&d, &o, "pages-after-insert");
    sv::cover("end");
}
/// Collections of more than a thousand entries.
fn huge() {
    let n = sv::param("n");
    let f = fmt();
    match sv::choice(3) {
        0 => {
            let rule = sv::choice(3);
            let m: Vec<(u16, u8)> = (0..n).map(|i| ((i * 3 + 1) as u16, byte(i))).collect();
            let mut map: Map<u16, u8> = Map::new();
            for i in 0..n { let e = m[order(rule, i, n)]; map.insert(e.0, e.1); }
            let d: Map<u16, u8> = decode(f, &encode(f, &map));
            map_agrees(&d, &m, "contents");
            as_by_hand(&d, &m);
        }
        1 => { let m: Vec<u8> = (0..n).map(byte).collect(); let s: Seq<u8> = m.clone().into(); let d: Seq<u8> = decode(f, &encode(f, &s)); sv::check(sv::eq(d.as_ref(), &m), "items"); sv::check(same(&d.root_hash(), &chain(&m)), "hash") }
        _ => {
            let (mut p, mut m) = (Paged::<u8, u8, 4>::new(), vec![]);
            for i in 0..n { put_value(&mut p, &mut m, if i % 9 == 4 { 2 } else { 7 }, byte(i)) }
            let d: Paged<u8, u8, 4> = decode(f, &encode(f, &p));
            paged_agrees(&d, &m, "pages");
        }
    }
    sv::cover("end");
}
/// A header of this type, then bytes that are small numbers, number heads or breaks: truncated, overlong and malformed too.
fn any_bytes(kind: u8) -> Vec<u8> {
    let b = sv::vec(sv::param("len"));
    for (i, x) in b.iter().enumerate() { if i == 0 { sv::assume(*x >> 5 == kind) } else { sv::assume((*x < 0x1c) | (*x == 0xff)) } }
    b
}
/// Bytes of any content: an error, or a map that commits to its contents.
fn map_any_bytes() {
    let b = any_bytes(5);
    match serde_cbor::from_slice::<Map<u8, u8>>(&b) {
        Err(_) => sv::cover("rejected"),
        Ok(d) => {
            let m: Vec<(u8, u8)> = d.iter().map(|(k, v)| (*k, *v)).collect();
            for i in 1..m.len() { sv::check(m[i - 1].0 < m[i].0, "order") }
            map_agrees(&d, &m, "contents");
            if m.is_empty() { sv::cover("empty") } else { sv::cover("entries") }
            sv::obs_bytes(&d.root_hash());
        }
    }
}

// ---------- sequences ----------
fn seq_trip<T: Item + Serialize + DeserializeOwned + CandidType>(f: Fmt) {
    let (s, mut m) = constructed::<T>();
    let b = encode(f, &s);
    sv::obs_bytes(&b);
    // written as the list of items is
    sv::check(sv::eq(&b, &encode(f, &m)), "encoding");
    let mut d: Seq<T> = decode(f, &b);
    agrees(&d, &m);
    sv::check(d == s, "equality");
    let x = T::fresh();
    d.append(x.clone());
    m.push(x);
    agrees(&d, &m);
    sv::obs_bytes(&d.root_hash());
    sv::cover("end");
}
fn seq_any_bytes() {
    let b = any_bytes(4);
    match serde_cbor::from_slice::<Seq<u8>>(&b) {
        Err(_) => sv::cover("rejected"),
        Ok(d) => { let m = d.as_vec().clone(); agrees(&d, &m); if m.is_empty() { sv::cover("empty") } else { sv::cover("items") } sv::obs_bytes(&d.root_hash()) }
    }
}

// ---------- paged ----------
fn paged_agrees<K: Key, const S: usize>(p: &Paged<K, u8, S>, m: &Items<K>, tag: &str) {
    for (k, items) in m {
        let n = pages(items.len(), S);
        sv::check(p.get_last_page_number(k) == Some(n - 1), tag);
        for i in 0..n {
            let want = &items[i * S..items.len().min(i * S + S)];
            match p.get(k, i) { Some(s) => { sv::check(sv::eq(s.as_ref(), want), tag); sv::check(same(&s.root_hash(), &chain(want)), "page-hash") } None => sv::fail(tag) }
        }
        sv::check(p.get(k, n).is_none(), tag);
    }
    let t = p.as_hash_tree();
    full_matches(&t, &entries::<K, S>(m), tag);
    sv::check(same(&rebuild(&t), &p.root_hash()), "root-hash");
}
fn paged_trip<K: Key + Serialize + DeserializeOwned + CandidType, const S: usize>(f: Fmt, (p, mut m): (Paged<K, u8, S>, Items<K>)) {
    let b = encode(f, &p);
    sv::obs_bytes(&b);
    let mut d: Paged<K, u8, S> = decode(f, &b);
    paged_agrees(&d, &m, "pages");
    let mut h = Paged::<K, u8, S>::new();
    for (k, items) in &m { for x in items { h.insert(k.clone(), *x) } }
    sv::check(same(&h.root_hash(), &d.root_hash()), "root-hash-by-hand");
    if m.iter().any(|e| e.1.len() > S) { sv::cover("several pages") } else { sv::cover("single pages") }
    put(&mut d, &mut m, K::fresh());
    paged_agrees(&d, &m, "pages-after-insert");
    sv::obs_bytes(&d.root_hash());
}

harness! {
    fn c24_map_cbor() { map_trip::<u8, u8>(Fmt::Cbor) }
    fn c24_map_candid() { map_trip::<u8, u8>(Fmt::Candid) }
    fn c24_map_u16_candid() { map_trip::<u16, Vec<u8>>(Fmt::Candid) }
    fn c24_map_string_cbor() { map_trip::<String, u8>(Fmt::Cbor) }
    fn c24_map_string_candid() { map_trip::<String, u8>(Fmt::Candid) }
    fn c24_map_vec_candid() { map_trip::<Vec<u8>, u8>(Fmt::Candid) }
    fn c24_map_seq_cbor() { map_trip::<u8, Seq<u8>>(Fmt::Cbor) }
    fn c24_map_seq_candid() { map_trip::<u8, Seq<u8>>(Fmt::Candid) }
    fn c24_arrivals_cbor() { map_arrivals::<u8, u8>(Fmt::Cbor) }
    fn c24_arrivals_candid() { map_arrivals::<u8, u8>(Fmt::Candid) }
    fn c24_arrivals_seq_candid() { map_arrivals::<u16, Seq<u8>>(Fmt::Candid) }
    fn c24_arrivals_string_candid() { map_arrivals::<String, u8>(Fmt::Candid) }
    fn c24_long_cbor() { map_long(Fmt::Cbor) }
    fn c24_long_candid() { map_long(Fmt::Candid) }
    fn c24_map_big() { map_big::<u8>() }
    fn c24_map_seq_big() { map_big::<Seq<u8>>() }
    fn c24_seq_big() { seq_big() }
    fn c24_paged_big() { paged_big() }
    fn c24_huge() { huge() }
    fn c24_map_bytes() { map_any_bytes() }

    fn c24_seq_cbor() { seq_trip::<u8>(Fmt::Cbor) }
    fn c24_seq_candid() { seq_trip::<u8>(Fmt::Candid) }
    fn c24_seq_u32_candid() { seq_trip::<u32>(Fmt::Candid) }
    fn c24_seq_string_cbor() { seq_trip::<String>(Fmt::Cbor) }
    fn c24_seq_string_candid() { seq_trip::<String>(Fmt::Candid) }
    fn c24_seq_seq_candid() { seq_trip::<Seq<u8>>(Fmt::Candid) }
    fn c24_seq_bytes() { seq_any_bytes() }

    fn c24_paged_cbor() { paged_trip(Fmt::Cbor, filled::<u8, 2>()) }
    fn c24_paged_candid() { paged_trip(Fmt::Candid, filled::<u8, 2>()) }
    fn c24_paged_u16_candid() { paged_trip(Fmt::Candid, filled::<u16, 1>()) }
    fn c24_paged_long_cbor() { paged_trip(Fmt::Cbor, filled_ranked::<u8, 2>()) }
    fn c24_paged_long_candid() { paged_trip(Fmt::Candid, filled_ranked::<u8, 3>()) }
}
