//! Groups: C21 to C23.
use crate::model::*;
use crate::sv;
use certified_vars::collections::group::{GroupLeaf, Ray};
use certified_vars::hashtree::{fork, labeled};
use certified_vars::{AsHashTree, Group, GroupBuilder, Hash, HashTree, Map, Seq};

/// Member types: some are one leaf, some have a shape of their own.
pub struct Mem<const I: usize>(Vec<u8>);
impl<const N: usize> Mem<N> { fn of(v: &[u8]) -> Self { Mem(v.to_vec()) } pub fn set(&mut self, v: &[u8]) { self.0 = v.to_vec() } }
impl<const I: usize> AsHashTree for Mem<I> {
    fn as_hash_tree(&self) -> HashTree<'_> { if I % 2 == 0 { HashTree::Leaf((&self.0[..]).into()) } else { fork(labeled(b"x", HashTree::Leaf((&self.0[..1]).into())), labeled(b"y", HashTree::Leaf((&self.0[1..]).into()))) } }
}
type M0 = Mem<0>;
type M1 = Mem<1>;
type M2 = Map<u8, u8>;
type M3 = Seq<u8>;
type M4 = Mem<4>;
/// More member types, for large groups.
macro_rules! more { ($i:expr, $t:ident => $e:expr) => { match $i { 5 => { type $t = Mem<5>; $e } 6 => { type $t = Mem<6>; $e } 7 => { type $t = Mem<7>; $e } 8 => { type $t = Mem<8>; $e } 9 => { type $t = Mem<9>; $e } 10 => { type $t = Mem<10>; $e } 11 => { type $t = Mem<11>; $e } 12 => { type $t = Mem<12>; $e } 13 => { type $t = Mem<13>; $e } 14 => { type $t = Mem<14>; $e } 15 => { type $t = Mem<15>; $e } 16 => { type $t = Mem<16>; $e } 17 => { type $t = Mem<17>; $e } 18 => { type $t = Mem<18>; $e } 19 => { type $t = Mem<19>; $e } 20 => { type $t = Mem<20>; $e } 21 => { type $t = Mem<21>; $e } 22 => { type $t = Mem<22>; $e } 23 => { type $t = Mem<23>; $e } _ => unreachable!() } } }
struct Missing;
impl AsHashTree for Missing { fn as_hash_tree(&self) -> HashTree<'_> { HashTree::Empty } }

pub type Path = Vec<String>;
/// The contents of member i: a few symbolic bytes.
pub type Vals = Vec<Vec<u8>>;
fn map_of(v: &[u8]) -> M2 { let mut m = Map::new(); for c in v.chunks(2) { m.insert(c[0], c[1]); } m }
fn add(b: GroupBuilder, i: usize, p: Path, v: &[u8]) -> GroupBuilder {
    match i { 0 => b.insert(p, Mem::<0>(v.to_vec())), 1 => b.insert(p, Mem::<1>(v.to_vec())), 2 => b.insert(p, map_of(v)), 3 => b.insert(p, Seq::from(v)), 4 => b.insert(p, Mem::<4>(v.to_vec())), _ => more!(i, T => b.insert(p, T::of(v))) }
}
fn member_hash(i: usize, v: &[u8]) -> Hash {
    match i { 2 => rebuild(&map_of(v).as_hash_tree()), 3 => chain(v), i if i % 2 == 1 => fork_h(&labeled_h(b"x", &leaf_h(&v[..1])), &labeled_h(b"y", &leaf_h(&v[1..]))), _ => leaf_h(v) }
}
fn vals(n: usize) -> Vals { (0..n).map(|_| sv::vec(2)).collect() }
/// Any path: components of up to `len` symbolic characters.
fn path() -> Path { (0..sv::choice(sv::param("deep")) + 1).map(|_| text(if sv::param("len") == 0 { 1 } else { sv::choice(sv::param("len") + 1) })).collect() }
fn eqs(a: &str, b: &str) -> bool { sv::eq(a.as_bytes(), b.as_bytes()) }
/// One path is the other or leads through it.
fn conflict(a: &Path, b: &Path) -> bool { a.iter().zip(b).all(|(x, y)| eqs(x, y)) }

pub struct Layout { pub paths: Vec<Path>, pub vals: Vals }
/// Any conflict-free layout of n members.
pub fn layout(n: usize) -> Layout {
    let mut paths: Vec<Path> = vec![];
    for _ in 0..n { let p = path(); for q in &paths { sv::assume(!conflict(&p, q)) } paths.push(p); }
    Layout { paths, vals: vals(n) }
}
/// Large layouts: names that extend each other, flat, in directories, in a deep chain, and mixtures.
fn big_layout(n: usize) -> Layout {
    let rule = sv::choice(8);
    let long = |i: usize| format!("a beginning that many names have in common, {:02}", i);
    let name = |i: usize| -> String { match i % 4 { 0 => format!("{}", (b'a' + (i / 4) as u8) as char), 1 => format!("{}a", (b'a' + (i / 4) as u8) as char), 2 => format!("{}a0", (b'a' + (i / 4) as u8) as char), _ => format!("{}\u{e9}", (b'a' + (i / 4) as u8) as char) } };
    let paths = (0..n).map(|i| match rule {
        0 => vec![name(order(4, i, n))],
        1 => vec![name(i / 4), name(i)],
        2 => { let mut p: Path = (0..i).map(|j| name(j % 3 * 4)).collect(); p.push(if i == n - 1 { name(i % 3 * 4) } else { format!("leaf{}", i) }); p }
        3 => if i % 3 == 0 { vec![name(i)] } else { vec![format!("dir{}", i % 3), name(i / 3)] },
        4 => vec![name(i / 9), name(i / 3), name(i)],
        5 => vec![long(order(4, i, n))],
        6 => vec![long(i % 3), long(order(4, i, n))],
        _ => if i == 0 { vec![String::new()] } else if i % 2 == 0 { vec!["x".into(), String::new(), name(i)] } else { vec!["x".into(), name(i), "x".into(), "y".into(), name(i)] },
    }).collect();
    Layout { paths, vals: vals(n) }
}
/// Deep and wide: members at the end of paths of up to hundreds of labels, some of which share most of theirs.
pub fn deep_layout() -> Layout {
    let depth = sv::param("depth");
    let n = [2, 3, 5, 9][sv::choice(4)];
    let rule = sv::choice(4);
    let lab = |i: usize| -> String { ["a", "b", "", "ab"][i % 4].into() };
    let paths = (0..n).map(|i| match rule {
        // a common stem
        0 => { let mut p: Path = (0..depth).map(lab).collect(); p.push(format!("m{}", i)); p }
        // long ones next to short ones
        1 => if i % 2 == 1 { vec![format!("s{}", i)] } else { let mut p: Path = vec![format!("s{}", i)]; p.extend((0..depth / (i + 1)).map(lab)); p },
        // branching off at different depths
        2 => { let mut p: Path = (0..depth * (i + 1) / n).map(|j| lab(j)).collect(); p.push(format!("m{}", i)); p }
        _ => { let mut p: Path = vec![format!("d{}", i % 2)]; p.extend((0..depth).map(|j| lab(j + i % 2))); p.push(format!("{}", i)); p }
    }).collect();
    Layout { paths, vals: vals(n) }
}
pub fn big() -> Layout { big_layout([7, 5, 9, 16, 17, 2, 3, 8, 12, 24][sv::choice(sv::param("kinds"))]) }
impl Layout {
    pub fn build(&self, order: &[usize]) -> Group { let mut b = GroupBuilder::new(); for &i in order { b = add(b, i, self.paths[i].clone(), &self.vals[i]); } b.build() }
    pub fn n(&self) -> usize { self.paths.len() }
}
pub fn sizes() -> usize { if sv::param("fix") == 1 { sv::param("n") } else { 1 + sv::choice(sv::param("n")) } }
fn permutation(n: usize) -> Vec<usize> { let mut rest: Vec<usize> = (0..n).collect(); let mut p = vec![]; while !rest.is_empty() { let i = if rest.len() == 1 { 0 } else { sv::choice(rest.len()) }; p.push(rest.remove(i)); } p }

// ---------- witnesses ----------
/// What was supplied for a member: nothing, its full tree, or another tree.
#[derive(Clone, Copy, PartialEq)]
pub enum Sel { No, Full, Part(usize) }
fn part(t: HashTree<'_>, kind: usize) -> HashTree<'_> {
    match (kind, t) { (1, HashTree::Fork(f)) => { let f = *f; fork(HashTree::Pruned(f.0.reconstruct()), f.1) } (_, t) => HashTree::Pruned(t.reconstruct()) }
}
fn full_of<'a, T: AsHashTree>(t: &'a T) -> HashTree<'a> { t.as_hash_tree() }
pub fn select<'a>(r: Ray<'a>, i: usize, s: Sel) -> Ray<'a> {
    macro_rules! go { ($($k:literal $t:ident),*) => { match (i, s) { $( ($k, Sel::Full) => r.full::<$t>(), ($k, Sel::Part(p)) => if p == 0 { r.partial(|x: &$t| HashTree::Pruned(x.root_hash())) } else { r.partial(|x: &$t| part(full_of(x), 1)) }, )* _ => r } } }
    if i > 4 { return more!(i, T => match s { Sel::Full => r.full::<T>(), Sel::Part(0) => r.partial(|x: &T| HashTree::Pruned(x.root_hash())), Sel::Part(_) => r.partial(|x: &T| part(full_of(x), 1)), _ => r }); }
    go!(0 M0, 1 M1, 2 M2, 3 M3, 4 M4)
}
fn supplied<'a>(g: &'a Group, i: usize, s: Sel) -> HashTree<'a> {
    let t = match i { 0 => full_of(g.get::<M0>()), 1 => full_of(g.get::<M1>()), 2 => full_of(g.get::<M2>()), 3 => full_of(g.get::<M3>()), 4 => full_of(g.get::<M4>()), _ => more!(i, T => full_of(g.get::<T>())) };
    match s { Sel::Part(0) => HashTree::Pruned(t.reconstruct()), Sel::Part(_) => part(t, 1), _ => t }
}
/// Any selection, in any order, with repetitions.
fn selection<'a>(g: &'a Group, n: usize, steps: usize) -> (Ray<'a>, Vec<Sel>) {
    let mut r = g.witness();
    let mut s = vec![Sel::No; n];
    for _ in 0..steps {
        let i = sv::choice(n);
        let x = match sv::choice(3) { 0 => Sel::Full, 1 => Sel::Part(0), _ => Sel::Part(1) };
        r = select(r, i, x);
        s[i] = x;
    }
    (r, s)
}
/// The part of a witness below a directory: labels for what leads to a selected member, digests for the rest.
fn exactly(t: &HashTree, depth: usize, below: &[usize], l: &Layout, g: &Group, s: &[Sel]) {
    if below.iter().all(|&i| s[i] == Sel::No) { sv::check(is_pruned(t), "unselected-part-shown"); return; }
    let mut f = vec![];
    flatten(t, &mut f);
    let mut todo: Vec<usize> = below.to_vec();
    let mut prev: Option<&[u8]> = None;
    for t in f {
        match t {
            HashTree::Pruned(_) => {}
            HashTree::Labeled(x, sub) => {
                if let Some(p) = prev { sv::check(p < &x[..], "label-order") }
                prev = Some(x);
                let (here, rest): (Vec<usize>, Vec<usize>) = todo.iter().partition(|&&i| sv::eq(l.paths[i][depth].as_bytes(), x));
                todo = rest;
                if here.is_empty() { sv::fail("unknown-label") }
                sv::check(here.iter().any(|&i| s[i] != Sel::No), "unselected-label");
                if here.len() == 1 && l.paths[here[0]].len() == depth + 1 { sv::check(trees_equal(sub, &supplied(g, here[0], s[here[0]])), "member-tree") } else { exactly(sub, depth + 1, &here, l, g, s) }
            }
            _ => sv::fail("unlabeled-part-shown"),
        }
    }
    for i in todo { sv::check(s[i] == Sel::No, "selected-member-missing") }
}
/// The full tree below a directory: every member under its path, labels in order. Returns what it hashes to.
fn complete(t: &HashTree, depth: usize, below: &[usize], l: &Layout) {
    let mut f = vec![];
    flatten(t, &mut f);
    // no lopsided directories: witnesses stay small
    sv::check(1 << forks(t) < 2 * f.len(), "fork-depth");
    let mut todo: Vec<usize> = below.to_vec();
    let mut prev: Option<&[u8]> = None;
    for t in f {
        let HashTree::Labeled(x, sub) = t else { sv::fail("full-tree") };
        if let Some(p) = prev { sv::check(p < &x[..], "label-order") }
        prev = Some(x);
        let (here, rest): (Vec<usize>, Vec<usize>) = todo.iter().partition(|&&i| sv::eq(l.paths[i][depth].as_bytes(), x));
        todo = rest;
        if here.is_empty() { sv::fail("unknown-label") }
        if here.len() == 1 && l.paths[here[0]].len() == depth + 1 { sv::check(same(&rebuild(sub), &member_hash(here[0], &l.vals[here[0]])), "member-hash") } else { complete(sub, depth + 1, &here, l) }
    }
    sv::check(todo.is_empty(), "member-missing");
}
/// Changes a member through the group, which is looked at before.
pub fn change(g: &mut Group, l: &mut Layout, i: usize) {
    let before = g.root_hash();
    sv::check(same(&g.as_hash_tree().reconstruct(), &before), "full-tree");
    sv::check(same(&select(g.witness(), i, Sel::Full).build().reconstruct(), &before), "witness");
    let v = sv::vec(2);
    match i {
        0 => g.get_mut::<M0>().0 = v.clone(),
        1 => g.get_mut::<M1>().0 = v.clone(),
        2 => { let m = g.get_mut::<M2>(); m.clear(); m.insert(v[0], v[1]); }
        3 => { let s = g.get_mut::<M3>(); s.clear(); s.append(v[0]); s.append(v[1]) }
        4 => g.get_mut::<M4>().0 = v.clone(),
        _ => more!(i, T => g.get_mut::<T>().0 = v.clone()),
    }
    l.vals[i] = v;
}
fn all(n: usize) -> Vec<usize> { (0..n).collect() }

// ---------- C21 ----------
fn views() {
    let mut l = layout(sizes());
    let n = l.n();
    let mut g = l.build(&all(n));
    if sv::choice(2) == 1 { sv::cover("modified"); let i = sv::choice(n); change(&mut g, &mut l, i) }
    let root = g.root_hash();
    let full = g.as_hash_tree();
    sv::check(same(&rebuild(&full), &root), "full-tree");
    sv::check(same(&full.reconstruct(), &root), "full-tree");
    complete(&full, 0, &all(n), &l);
    let (r, s) = selection(&g, n, sv::choice(sv::param("k") + 1));
    sv::check(same(&r.build().reconstruct(), &root), "witness");
    sv::cover(if s.iter().all(|x| *x == Sel::No) { "none selected" } else { "some selected" });
    sv::obs_bytes(&root);
}
/// The witness of a large group for one or two members, or all of them, after a change.
fn big_views(mut l: Layout) {
    let n = l.n();
    let mut g = l.build(&(0..n).map(|i| order(1 + n % 3, i, n)).collect::<Vec<_>>());
    if sv::choice(2) == 1 { change(&mut g, &mut l, n / 3) }
    let root = g.root_hash();
    let full = g.as_hash_tree();
    sv::check(same(&rebuild(&full), &root), "full-tree");
    complete(&full, 0, &all(n), &l);
    let kinds = [Sel::Full, Sel::Part(0), Sel::Part(1)];
    let mut s = vec![Sel::No; n];
    let mut r = g.witness();
    match sv::choice(3) {
        0 => { let i = sv::choice(n); s[i] = kinds[i % 3]; r = select(r, i, s[i]); }
        1 => { let (i, j) = (sv::choice(n), n / 2); for k in [i, j] { s[k] = kinds[(k + n) % 3]; r = select(r, k, s[k]); } }
        _ => { let skip = sv::choice(n); for i in 0..n { let i = order(n % 5, i, n); if i != skip { s[i] = kinds[(i + n) % 3]; r = select(r, i, s[i]); } } }
    }
    let w = r.build();
    sv::check(same(&w.reconstruct(), &root), "witness");
    exactly(&w, 0, &all(n), &l, &g, &s);
    sv::cover("end");
}
/// Large layouts do not depend on the order of insertion.
fn big_orders(l: Layout) {
    let n = l.n();
    let rule = sv::choice(5);
    let (mut a, b) = (l.build(&all(n)), l.build(&(0..n).map(|i| order(rule, i, n)).collect::<Vec<_>>()));
    sv::check(same(&a.root_hash(), &b.root_hash()), "order-dependent-layout");
    sv::check(trees_equal(&a.as_hash_tree(), &b.as_hash_tree()), "order-dependent-layout");
    complete(&b.as_hash_tree(), 0, &all(n), &l);
    got(&a, &l);
    got(&b, &l);
    let i = sv::choice(n);
    let mut l = l;
    change(&mut a, &mut l, i);
    got(&a, &l);
    sv::cover("end");
}
// ---------- C22 ----------
fn witness() {
    let l = layout(sizes());
    let n = l.n();
    let g = l.build(&all(n));
    let (r, s) = selection(&g, n, sv::choice(sv::param("k") + 1));
    let w = r.build();
    exactly(&w, 0, &all(n), &l, &g, &s);
    sv::check(same(&rebuild(&w), &g.root_hash()), "witness");
    sv::cover(if s.iter().all(|x| *x == Sel::No) { "none selected" } else if s.iter().all(|x| *x != Sel::No) { "all selected" } else { "some selected" });
    sv::obs_bytes(&rebuild(&w));
}
/// Whatever tree the caller supplies for a member is what the witness has for it.
fn supplied_tree() {
    let l = layout(sizes());
    let n = l.n();
    let g = l.build(&all(n));
    let x = sv::vec(2);
    let y: Hash = sv::bytes();
    let mk = |k: usize| match k { 0 => HashTree::Empty, 1 => HashTree::Leaf(x.clone().into()), 2 => HashTree::Pruned(y), _ => HashTree::Labeled(x.clone().into(), Box::new(HashTree::Empty)) };
    let (i, k) = (sv::choice(n), sv::choice(4));
    let t = mk(k);
    let mut r = g.witness();
    if sv::choice(2) == 1 { r = select(r, i, Sel::Full) }
    let w = match i { 0 => r.partial(|_: &M0| t), 1 => r.partial(|_: &M1| t), 2 => r.partial(|_: &M2| t), 3 => r.partial(|_: &M3| t), _ => r.partial(|_: &M4| t) }.build();
    // down the member's path
    let mut at = &w;
    for p in &l.paths[i] {
        let mut f = vec![];
        flatten(at, &mut f);
        let mut next = None;
        for t in f { match t { HashTree::Labeled(x, s) => { sv::check(sv::eq(x, p.as_bytes()), "unselected-label"); sv::check(next.is_none(), "label-twice"); next = Some(&**s) } HashTree::Pruned(_) => {} _ => sv::fail("unlabeled-part-shown") } }
        match next { Some(s) => at = s, None => sv::fail("selected-member-missing") }
    }
    sv::check(trees_equal(at, &mk(k)), "member-tree");
    sv::cover("end");
}
// ---------- C23 ----------
fn orders() {
    let l = layout(sizes());
    let n = l.n();
    let p = permutation(n);
    let (mut a, b) = (l.build(&all(n)), l.build(&p));
    sv::check(same(&a.root_hash(), &b.root_hash()), "order-dependent-layout");
    let (s, t) = (a.as_hash_tree(), b.as_hash_tree());
    sv::check(trees_equal(&s, &t), "order-dependent-layout");
    complete(&t, 0, &all(n), &l);
    drop((s, t));
    got(&a, &l);
    got(&b, &l);
    sv::check(sv::eq(&a.get_mut::<M0>().0, &l.vals[0]), "get-mut");
    sv::obs_bytes(&b.root_hash());
    sv::cover("end");
}
/// Typed access, to exactly what was inserted.
fn got(g: &Group, l: &Layout) {
    let n = l.n();
    {
        sv::check(sv::eq(&g.get::<M0>().0, &l.vals[0]), "get");
        if n > 1 { sv::check(sv::eq(&g.get::<M1>().0, &l.vals[1]), "get") }
        if n > 2 { let m = g.get::<M2>(); sv::check(m.len() == 1 && m.get(&l.vals[2][0]) == Some(&l.vals[2][1]), "get") }
        if n > 3 { sv::check(sv::eq(g.get::<M3>().as_ref(), &l.vals[3]), "get") }
        if n > 4 { sv::check(sv::eq(&g.get::<M4>().0, &l.vals[4]), "get") }
        for i in 5..n { more!(i, T => sv::check(sv::eq(&g.get::<T>().0, &l.vals[i]), "get")) }
    }
}
/// Any paths: accepted exactly when no two conflict.
fn conflicts() {
    let n = sizes();
    let paths: Vec<Path> = (0..n).map(|_| path()).collect();
    let v = vals(n);
    let mut b = GroupBuilder::default();
    for i in 0..n {
        let clash = paths[..i].iter().any(|p| conflict(p, &paths[i]));
        if clash { sv::cover("conflict"); sv::expect_panic(true) }
        b = add(b, i, paths[i].clone(), &v[i]);
        if clash { sv::expect_panic(false); sv::fail("conflict-accepted") }
    }
    sv::cover("no conflict");
    let g = b.build();
    complete(&g.as_hash_tree(), 0, &all(n), &Layout { paths, vals: v });
}
/// The type of a member cannot be used again, whatever the path, and a type that is not there cannot be had.
fn wrong_types() {
    let l = layout(sizes());
    let n = l.n();
    let what = sv::choice(5);
    if what == 0 {
        let mut b = GroupBuilder::new();
        for i in 0..n { b = add(b, i, l.paths[i].clone(), &l.vals[i]); }
        let (i, p) = (sv::choice(n), path());
        sv::cover("type used again");
        sv::expect_panic(true);
        b = add(b, i, p, &l.vals[i]);
        sv::expect_panic(false);
        drop(b);
        sv::fail("type-accepted-twice");
    }
    let mut g = l.build(&all(n));
    sv::cover("type not there");
    sv::expect_panic(true);
    match what {
        1 => { g.get::<Missing>(); }
        2 => { g.get_mut::<Missing>(); }
        3 => { let _ = g.witness().full::<Missing>(); }
        _ => { let _ = g.witness().partial(|_: &Missing| HashTree::Empty); }
    }
    sv::expect_panic(false);
    sv::fail("missing-type-accepted");
}
/// A member on its own is of its type, and of no other.
fn leaves() {
    let v = sv::vec(2);
    let k = sv::choice(4);
    let mut x: Box<dyn GroupLeaf> = match k { 0 => Box::new(Mem::<0>(v.clone())), 1 => Box::new(Mem::<1>(v.clone())), 2 => Box::new(map_of(&v)), _ => Box::new(Seq::from(&v[..])) };
    sv::check(x.is::<M0>() == (k == 0) && x.is::<M1>() == (k == 1) && x.is::<M2>() == (k == 2) && x.is::<M3>() == (k == 3) && !x.is::<M4>() && !x.is::<Missing>(), "type-test");
    sv::check(x.downcast_ref::<M0>().is_some() == (k == 0) && x.downcast_ref::<M1>().is_some() == (k == 1) && x.downcast_ref::<M2>().is_some() == (k == 2) && x.downcast_ref::<M3>().is_some() == (k == 3) && x.downcast_ref::<Missing>().is_none(), "downcast");
    sv::check(x.downcast_mut::<M0>().is_some() == (k == 0) && x.downcast_mut::<M1>().is_some() == (k == 1) && x.downcast_mut::<M2>().is_some() == (k == 2) && x.downcast_mut::<M3>().is_some() == (k == 3) && x.downcast_mut::<Missing>().is_none(), "downcast");
    sv::check(same(&x.root_hash(), &member_hash(k, &v)), "member-hash");
    sv::check(same(&rebuild(&x.as_hash_tree()), &x.root_hash()), "member-hash");
    let w = sv::vec(2);
    match k {
        0 => x.downcast_mut::<M0>().unwrap().0 = w.clone(),
        1 => x.downcast_mut::<M1>().unwrap().0 = w.clone(),
        2 => { let m = x.downcast_mut::<M2>().unwrap(); m.clear(); m.insert(w[0], w[1]); }
        _ => { let s = x.downcast_mut::<M3>().unwrap(); s.clear(); s.extend(w.clone()) }
    }
    sv::check(same(&x.root_hash(), &member_hash(k, &w)), "member-hash");
    sv::cover("end");
}

harness! {
    fn c23_leaves() { leaves() }
    fn c21_views() { views() }
    fn c21_big() { big_views(big()) }
    fn c22_big() { big_views(big()) }
    fn c23_big() { big_orders(big()) }
    fn c21_deep() { big_views(deep_layout()) }
    fn c22_deep() { big_views(deep_layout()) }
    fn c23_deep() { big_orders(deep_layout()) }
    fn c22_witness() { witness() }
    fn c22_supplied() { supplied_tree() }
    fn c23_orders() { orders() }
    fn c23_conflicts() { conflicts() }
    fn c23_types() { wrong_types() }
}
