//! C15: groups.

use crate::hist::run_shrunk;
use crate::kinds::Val;
use crate::report::{caught, Ctx, Fail, R};
use crate::tree::{self, Item, T};
use crate::util::{clip, Rng, Sig};
use crate::{ensure, fail};
use certified_vars::collections::group::builder::GroupBuilder;
use certified_vars::collections::group::{Group, GroupLeaf, Ray};
use certified_vars::{AsHashTree, Hash, HashTree, Map, Seq};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

/// What a leaf holds.
#[derive(Clone, Debug, PartialEq)]
pub enum M {
    Text(String),
    Num(u64),
    Map(BTreeMap<String, u64>),
    Seq(Vec<u16>),
    Maps(BTreeMap<u8, BTreeMap<u8, u8>>),
    Sub(String, u64),
    Unit,
}

/// A leaf type of a group under test.
pub trait Leafy: GroupLeaf + Sized {
    fn make(r: &mut Rng) -> (Self, M);
    fn change(&mut self, r: &mut Rng, m: &mut M);
    fn holds(&self, m: &M) -> bool;
    /// A tree with the leaf's root hash, that shows part of it.
    fn part(&self, how: u64) -> HashTree<'_>;
}

fn prune(x: &dyn AsHashTree) -> HashTree<'_> {
    HashTree::Pruned(x.root_hash())
}

fn key(r: &mut Rng) -> String {
    (*r.pick(&["", "a", "b", "ab", "x", "yy", "key", "k2", "z"])).to_string()
}

pub type Big = Map<String, u64>;
impl Leafy for Big {
    fn make(r: &mut Rng) -> (Self, M) {
        let m: BTreeMap<String, u64> = (0..r.below(6)).map(|_| (key(r), r.u64())).collect();
        (m.clone().into_iter().collect(), M::Map(m))
    }
    fn change(&mut self, r: &mut Rng, m: &mut M) {
        let M::Map(m) = m else { unreachable!() };
        let k = key(r);
        let v = r.u64();
        match r.below(5) {
            0 => {
                self.remove(&k);
                m.remove(&k);
            }
            1 => {
                if let Some(x) = self.get_mut(&k) {
                    *x = v;
                    m.insert(k, v);
                }
            }
            2 => {
                *self.entry(k.clone()).or_default() ^= v;
                *m.entry(k).or_default() ^= v;
            }
            3 if r.chance(1, 4) => {
                self.clear();
                m.clear();
            }
            _ => {
                self.insert(k.clone(), v);
                m.insert(k, v);
            }
        }
    }
    fn holds(&self, m: &M) -> bool {
        let M::Map(m) = m else { unreachable!() };
        self.iter().eq(m.iter()) && self.len() == m.len()
    }
    fn part(&self, how: u64) -> HashTree<'_> {
        let mut r = Rng::new(how);
        match r.below(6) {
            0 => prune(self),
            1 => self.as_hash_tree(),
            2 => self.witness_keys(),
            3 => self.witness_keys_with_prefix::<str>("a"),
            4 => {
                let (a, b) = (key(&mut r), key(&mut r));
                let (a, b) = if a <= b { (a, b) } else { (b, a) };
                self.witness_value_range::<String, String>(&a, &b)
            }
            _ => self.witness(&key(&mut r)),
        }
    }
}

pub type Deep = Map<u8, Map<u8, u8>>;
impl Leafy for Deep {
    fn make(_: &mut Rng) -> (Self, M) {
        (Map::new(), M::Maps(BTreeMap::new()))
    }
    fn change(&mut self, r: &mut Rng, m: &mut M) {
        let M::Maps(m) = m else { unreachable!() };
        let (a, b, c) = (r.below(4) as u8, r.below(4) as u8, r.u64() as u8);
        self.entry(a).or_default().insert(b, c);
        m.entry(a).or_default().insert(b, c);
    }
    fn holds(&self, m: &M) -> bool {
        let M::Maps(m) = m else { unreachable!() };
        self.len() == m.len() && self.iter().zip(m.iter()).all(|((a, x), (b, y))| a == b && x.iter().eq(y.iter()))
    }
    fn part(&self, how: u64) -> HashTree<'_> {
        let mut r = Rng::new(how);
        let k = r.below(5) as u8;
        match r.below(3) {
            0 => self.witness_keys(),
            1 => self.witness(&k),
            _ => self.as_tree().nested_witness(&k, |x| x.witness(&1)),
        }
    }
}

impl Leafy for Seq<u16> {
    fn make(r: &mut Rng) -> (Self, M) {
        let v: Vec<u16> = (0..r.below(4)).map(|_| r.u64() as u16).collect();
        (Seq::from(&v[..]), M::Seq(v))
    }
    fn change(&mut self, r: &mut Rng, m: &mut M) {
        let M::Seq(m) = m else { unreachable!() };
        if r.chance(1, 6) {
            self.clear();
            m.clear();
        } else {
            let x = r.u64() as u16;
            self.append(x);
            m.push(x);
        }
    }
    fn holds(&self, m: &M) -> bool {
        let M::Seq(m) = m else { unreachable!() };
        self.as_vec() == m
    }
    fn part(&self, _: u64) -> HashTree<'_> {
        self.as_hash_tree()
    }
}

macro_rules! plain_leaf {
    ($t:ty, $m:ident, $r:ident => $gen:expr, $s:ident => $get:expr, $c:ident => $make:expr) => {
        impl Leafy for $t {
            fn make($r: &mut Rng) -> (Self, M) {
                let $c = $gen;
                ($make, M::$m($c.clone()))
            }
            fn change(&mut self, $r: &mut Rng, m: &mut M) {
                let $c = $gen;
                *self = $make;
                *m = M::$m($c.clone());
            }
            fn holds(&self, m: &M) -> bool {
                let $s = self;
                M::$m($get) == *m
            }
            fn part(&self, how: u64) -> HashTree<'_> {
                if how % 2 == 0 {
                    prune(self)
                } else {
                    self.as_hash_tree()
                }
            }
        }
    };
}
plain_leaf!(String, Text, r => <String as Val>::gen(r), s => s.clone(), c => c.clone());
plain_leaf!(Rc<String>, Text, r => <String as Val>::gen(r), s => (**s).clone(), c => Rc::new(c.clone()));
plain_leaf!(Box<u64>, Num, r => r.u64(), s => **s, c => Box::new(c));
plain_leaf!(u64, Num, r => r.u64(), s => *s, c => c);

/// A leaf without size.
pub struct Unit;
impl AsHashTree for Unit {
    fn as_hash_tree(&self) -> HashTree<'_> {
        HashTree::Leaf((&b"unit"[..]).into())
    }
}
impl Leafy for Unit {
    fn make(_: &mut Rng) -> (Self, M) {
        (Unit, M::Unit)
    }
    fn change(&mut self, _: &mut Rng, _: &mut M) {}
    fn holds(&self, m: &M) -> bool {
        *m == M::Unit
    }
    fn part(&self, _: u64) -> HashTree<'_> {
        prune(self)
    }
}

/// A group within the group.
impl Leafy for Group {
    fn make(r: &mut Rng) -> (Self, M) {
        let t = <String as Val>::gen(r);
        let n = r.u64();
        (GroupBuilder::new().insert(["t"], t.clone()).insert(["d", "n"], n).build(), M::Sub(t, n))
    }
    fn change(&mut self, r: &mut Rng, m: &mut M) {
        let M::Sub(t, n) = m else { unreachable!() };
        if r.chance(1, 2) {
            *t = <String as Val>::gen(r);
            *self.get_mut::<String>() = t.clone();
        } else {
            *n = r.u64();
            *self.get_mut::<u64>() = *n;
        }
    }
    fn holds(&self, m: &M) -> bool {
        let M::Sub(t, n) = m else { unreachable!() };
        self.get::<String>() == t && self.get::<u64>() == n
    }
    fn part(&self, how: u64) -> HashTree<'_> {
        match how % 3 {
            0 => self.witness().full::<u64>().build(),
            1 => self.witness().full::<String>().full::<u64>().build(),
            _ => self.witness().build(),
        }
    }
}

/// Leaf types that differ in name only.
pub struct L<const N: usize, X>(X);
impl<const N: usize, X: AsHashTree> AsHashTree for L<N, X> {
    fn root_hash(&self) -> Hash {
        self.0.root_hash()
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.0.as_hash_tree()
    }
}
impl<const N: usize, X: Leafy> Leafy for L<N, X> {
    fn make(r: &mut Rng) -> (Self, M) {
        let (x, m) = X::make(r);
        (L(x), m)
    }
    fn change(&mut self, r: &mut Rng, m: &mut M) {
        self.0.change(r, m)
    }
    fn holds(&self, m: &M) -> bool {
        self.0.holds(m)
    }
    fn part(&self, how: u64) -> HashTree<'_> {
        self.0.part(how)
    }
}

/// Two leaf types that share the name and the shape: only their identity tells
/// them apart.
pub struct Twins<const N: usize>;
pub trait Of {
    type T;
}
macro_rules! twin {
    ($n:literal) => {
        const _: () = {
            pub struct Twin(String);
            impl AsHashTree for Twin {
                fn root_hash(&self) -> Hash {
                    self.0.root_hash()
                }
                fn as_hash_tree(&self) -> HashTree<'_> {
                    self.0.as_hash_tree()
                }
            }
            impl Leafy for Twin {
                fn make(r: &mut Rng) -> (Self, M) {
                    let (x, m) = String::make(r);
                    (Twin(x), m)
                }
                fn change(&mut self, r: &mut Rng, m: &mut M) {
                    self.0.change(r, m)
                }
                fn holds(&self, m: &M) -> bool {
                    self.0.holds(m)
                }
                fn part(&self, how: u64) -> HashTree<'_> {
                    self.0.part(how)
                }
            }
            impl Of for Twins<$n> {
                type T = Twin;
            }
        };
    };
}
twin!(0);
twin!(1);
pub type Twin0 = <Twins<0> as Of>::T;
pub type Twin1 = <Twins<1> as Of>::T;

pub const LEAVES: usize = 38;
#[macro_export]
macro_rules! arms {
    ($i:expr, $t:ident => $e:expr; $($n:literal: $ty:ty),* $(,)?) => {
        match $i {
            $($n => { type $t = $ty; $e })*
            _ => unreachable!(),
        }
    };
}
#[macro_export]
macro_rules! leaf {
    ($i:expr, $t:ident => $e:expr) => {
        $crate::arms!($i, $t => $e;
            0: Big, 1: String, 2: u64, 3: Seq<u16>, 4: Rc<String>, 5: Box<u64>, 6: Unit, 7: Group, 8: Deep,
            9: L<9, Big>, 10: L<10, Big>, 11: L<11, Seq<u16>>, 12: L<12, String>, 13: L<13, u64>, 14: L<14, String>,
            15: L<15, u64>, 16: L<16, u64>, 17: L<17, u64>, 18: L<18, u64>, 19: L<19, u64>, 20: L<20, u64>, 21: L<21, Unit>,
            22: L<22, String>, 23: L<23, String>, 24: L<24, Group>, 25: L<25, Deep>, 26: L<26, u64>, 27: L<27, u64>,
            28: L<28, u64>, 29: L<29, u64>, 30: L<30, u64>, 31: L<31, String>, 32: L<32, Big>, 33: L<33, u64>,
            34: L<34, u64>, 35: L<35, String>, 36: Twin0, 37: Twin1)
    };
}

pub type Path = Vec<String>;

/// The layout as a directory.
enum Node {
    Dir(BTreeMap<Vec<u8>, Node>),
    Leaf(usize),
}

fn layout(xs: &[(usize, Path)]) -> Node {
    let mut root = BTreeMap::new();
    for (i, p) in xs {
        let mut d = &mut root;
        for n in &p[..p.len() - 1] {
            let Node::Dir(next) = d.entry(n.clone().into_bytes()).or_insert_with(|| Node::Dir(BTreeMap::new())) else { unreachable!() };
            d = next;
        }
        d.insert(p[p.len() - 1].clone().into_bytes(), Node::Leaf(*i));
    }
    Node::Dir(root)
}

/// Whether a new path can stand beside the others.
fn fits(xs: &[(usize, Path)], p: &Path) -> bool {
    xs.iter().all(|(_, q)| !p.starts_with(q) && !q.starts_with(p))
}

fn name(r: &mut Rng, style: usize) -> String {
    match style {
        0 => (*r.pick(&["a", "b", "c"])).into(),
        1 => format!("{}", r.below(40)),
        2 => (*r.pick(&["", "a", "aa", "A", "é", "e", "\u{10ffff}", "\u{ffff}", "\0", "a\0", "a/b", "/", " ", "z", "ß", "日本", "~", "\u{7f}", "\u{80}"])).into(),
        3 => "n".repeat(*r.pick(&[1usize, 31, 32, 33, 63, 64, 255, 256, 300])),
        _ => <String as Val>::gen(r),
    }
}

pub fn paths(r: &mut Rng, small: bool) -> Vec<(usize, Path)> {
    let mut types: Vec<usize> = (0..LEAVES).collect();
    r.shuffle(&mut types);
    let n = match r.below(5) {
        0 => r.range(1, 3),
        1 | 2 => r.range(2, 8),
        3 => r.range(6, 20),
        _ => r.range(1, LEAVES),
    };
    let n = if small { n.min(4) } else { n };
    let style = r.below(5);
    let depth = *r.pick(&[1usize, 1, 2, 3, 5, 12, 30]);
    let mut xs: Vec<(usize, Path)> = vec![];
    for i in types.into_iter().take(n) {
        for _ in 0..20 {
            let mut p: Path = if !xs.is_empty() && r.chance(1, 2) {
                // Beside or below a neighbour's directory.
                let q = &r.pick(&xs).1;
                q[..r.below(q.len())].to_vec()
            } else {
                vec![]
            };
            let d = p.len() + r.range(1, depth);
            while p.len() < d {
                let st = if r.chance(1, 5) { r.below(5) } else { style };
                p.push(name(r, st));
            }
            if fits(&xs, &p) {
                xs.push((i, p));
                break;
            }
        }
    }
    xs
}

pub fn build(xs: &[(usize, Path)], seeds: &BTreeMap<usize, u64>, form: u64) -> (Group, BTreeMap<usize, M>) {
    let mut b = if form % 2 == 0 { GroupBuilder::new() } else { GroupBuilder::default() };
    let mut ms = BTreeMap::new();
    for (i, p) in xs {
        let mut r = Rng::new(seeds[i]);
        b = leaf!(*i, X => {
            let (x, m) = X::make(&mut r);
            ms.insert(*i, m);
            match form % 3 {
                0 => b.insert(p.clone(), x),
                1 => b.insert(p.iter().map(|s| &s[..]), x),
                _ => b.insert(p.iter().cloned().collect::<std::collections::VecDeque<String>>(), x),
            }
        });
    }
    (b.build(), ms)
}

/// The tree that has to be below a directory, against the tree that is there.
/// `show` tells what has to be visible of a leaf.
fn compare(n: &Node, t: &T, full: bool, show: &BTreeMap<usize, Vec<T>>, at: &mut Vec<String>) -> R {
    let Node::Dir(d) = n else { unreachable!() };
    let where_ = |at: &Vec<String>| clip(format!("{:?}", at), 300);
    let wanted = |n: &Node| -> bool {
        fn any(n: &Node, show: &BTreeMap<usize, Vec<T>>) -> bool {
            match n {
                Node::Dir(d) => d.values().any(|x| any(x, show)),
                Node::Leaf(i) => show.contains_key(i),
            }
        }
        any(n, show)
    };
    let mut it = d.iter().filter(|(_, n)| wanted(n));
    for x in t.items() {
        match x {
            Item::Key(l, sub) => {
                let Some((name, n)) = it.next() else { fail!("at {} it shows {:?}, which was not asked for", where_(at), String::from_utf8_lossy(l)) };
                ensure!(l == &name[..], "at {} it shows the name {:?} in place of {:?}", where_(at), String::from_utf8_lossy(l), String::from_utf8_lossy(name));
                at.push(String::from_utf8_lossy(name).into());
                match n {
                    Node::Dir(_) => compare(n, sub, full, show, at)?,
                    Node::Leaf(i) => {
                        ensure!(show[i].iter().any(|x| x == sub), "at {} it shows {:?}, should show {:?}", where_(at), sub, show[i]);
                    }
                }
                at.pop();
            }
            Item::Gap if !full => {}
            other => fail!("at {} there is {:?}", where_(at), other),
        }
    }
    if let Some((name, _)) = it.next() {
        fail!("at {} the name {:?} is missing", where_(at), String::from_utf8_lossy(name))
    }
    Ok(())
}

fn shows(g: &Group, i: usize) -> T {
    leaf!(i, X => tree::from(&g.get::<X>().as_hash_tree()))
}

fn whole(ctx: &mut Ctx, g: &Group, dir: &Node, ms: &BTreeMap<usize, M>) -> R<Hash> {
    for (i, m) in ms {
        let ok = leaf!(*i, X => g.get::<X>().holds(m));
        ensure!(ok, "the leaf of type {} does not hold what was put there: {:?}", i, m);
    }
    let t = tree::from(&g.as_hash_tree());
    let root = g.root_hash();
    ensure!(t.hash() == root, "the root hash is not the hash of the full tree {:?}", t);
    let show: BTreeMap<usize, Vec<T>> = ms.keys().map(|i| (*i, vec![shows(g, *i)])).collect();
    compare(dir, &t, true, &show, &mut vec![]).map_err(|f| Fail(format!("full tree: {} (tree {})", f.0, clip(format!("{:?}", t), 1500))))?;
    ctx.count("full trees compared with the layout", 1);
    Ok(root)
}

fn choose<'a>(g: &'a Group, ray: Ray<'a>, i: usize, part: Option<u64>) -> (Ray<'a>, T) {
    leaf!(i, X => match part {
        None => (ray.full::<X>(), tree::from(&g.get::<X>().as_hash_tree())),
        Some(how) => {
            let t = tree::from(&g.get::<X>().part(how));
            (ray.partial::<X, _>(|x| x.part(how)), t)
        }
    })
}

fn witness(ctx: &mut Ctx, r: &mut Rng, g: &Group, dir: &Node, xs: &[(usize, Path)], root: &Hash) -> R {
    let mut all: Vec<usize> = xs.iter().map(|x| x.0).collect();
    r.shuffle(&mut all);
    let n = match r.below(6) {
        0 => 0,
        1 | 2 => 1,
        3 => all.len(),
        _ => r.below(all.len() + 1),
    };
    let mut chosen: Vec<usize> = all[..n.min(all.len())].to_vec();
    if n > 0 && r.chance(1, 6) {
        // The same leaf twice.
        let i = *r.pick(&chosen);
        chosen.push(i);
    }
    let mut ray = g.witness();
    let mut show: BTreeMap<usize, Vec<T>> = BTreeMap::new();
    let mut told = vec![];
    for i in &chosen {
        let part = if r.chance(1, 2) { Some(r.u64()) } else { None };
        told.push((*i, part));
        let (next, t) = choose(g, ray, *i, part);
        ray = next;
        show.entry(*i).or_default().push(t);
    }
    if r.chance(1, 10) {
        // Abandoned, and built anew.
        drop(ray);
        ray = g.witness();
        for (i, part) in &told {
            ray = choose(g, ray, *i, *part).0;
        }
    }
    let w = ray.build();
    let t = tree::from(&w);
    let tag = |f: Fail| Fail(format!("witness with {:?} (type, partial) of {} leaves: {} (witness {})", told, xs.len(), f.0, clip(format!("{:?}", t), 1500)));
    ensure!(t.hash() == *root && w.reconstruct() == *root, "{}", tag(Fail("does not hash to the root hash".into())).0);
    compare(dir, &t, false, &show, &mut vec![]).map_err(tag)?;
    let bytes = serde_cbor::to_vec(&w).map_err(|e| Fail(format!("the witness does not serialize: {}", e)))?;
    let d = tree::decode(&bytes).map_err(|e| tag(Fail(format!("the serialized witness does not decode: {}", e))))?;
    ensure!(d == t, "{}", tag(Fail("the serialized witness is another tree".into())).0);
    ctx.count(if told.iter().any(|x| x.1.is_some()) { "witnesses with partial leaves" } else { "witnesses with full leaves" }, 1);
    let mut s = Sig::new();
    let mut sorted: BTreeSet<usize> = BTreeSet::new();
    sorted.extend(chosen.iter());
    for (i, p) in xs {
        s.num(*i as u64);
        s.num(sorted.contains(i) as u64);
        for n in p {
            s.add(n.as_bytes());
            s.num(1);
        }
    }
    if xs.len() >= 2 {
        ctx.seen(s.0);
    } else {
        ctx.trivial();
    }
    Ok(())
}

/// Types and paths that are taken are refused.
fn refusals(ctx: &mut Ctx, r: &mut Rng, xs: &[(usize, Path)], seeds: &BTreeMap<usize, u64>) -> R {
    let free = (0..LEAVES).find(|i| !xs.iter().any(|x| x.0 == *i));
    let (bad_type, bad_path): (usize, Path) = match (r.below(4), free) {
        (0, _) | (_, None) => {
            let mut p = vec![name(r, 4), "unused directory".to_string()];
            for _ in 0..20 {
                if fits(xs, &p) {
                    break;
                }
                p[0] = name(r, 4);
            }
            if !fits(xs, &p) {
                return Ok(());
            }
            (r.pick(xs).0, p)
        }
        (1, Some(f)) => (f, r.pick(xs).1.clone()),
        (2, Some(f)) => {
            // Through a leaf.
            let mut p = r.pick(xs).1.clone();
            for _ in 0..r.range(1, 3) {
                p.push(name(r, 2));
            }
            (f, p)
        }
        (_, Some(f)) => {
            // A directory.
            let p = &r.pick(xs).1;
            if p.len() < 2 {
                return Ok(());
            }
            (f, p[..r.range(1, p.len() - 1)].to_vec())
        }
    };
    let res = caught(|| {
        let mut all = xs.to_vec();
        all.push((bad_type, bad_path.clone()));
        let mut s = seeds.clone();
        s.entry(bad_type).or_insert(1);
        let (g, _) = build(&all, &s, 0);
        tree::from(&g.as_hash_tree())
    });
    match res {
        Ok(t) => fail!("type {} at {:?} is taken, but accepted; the tree is {}", bad_type, bad_path, clip(format!("{:?}", t), 1500)),
        Err(crate::report::Caught::Harness(m)) => {
            eprintln!("HARNESS-ERROR {}", m);
            std::process::exit(2)
        }
        Err(_) => ctx.count("taken types and paths refused", 1),
    }
    Ok(())
}

/// A boxed leaf is of its own type and of no other, whatever the types' names
/// and shapes.
pub fn downcasts(r: &mut Rng) -> R {
    let i = r.below(LEAVES);
    let mut js: Vec<usize> = (0..4).map(|_| r.below(LEAVES)).collect();
    js.push(i);
    if r.chance(1, 4) {
        js.extend([36, 37]);
    }
    let i = if r.chance(1, 4) { *r.pick(&[36, 37]) } else { i };
    js.push(i);
    let (mut x, mut m): (Box<dyn GroupLeaf>, M) = leaf!(i, X => {
        let (x, m) = X::make(r);
        (Box::new(x), m)
    });
    for j in js {
        leaf!(j, Y => {
            let is = x.is::<Y>();
            ensure!(is == (i == j), "a boxed leaf of type {} says {} to being of type {}", i, is, j);
            // The types differ but not in what `is` answers: not followed.
            ensure!(x.downcast_ref::<Y>().is_some() == (i == j), "a boxed leaf of type {} is cast to type {}, or refused as its own", i, j);
            ensure!(x.downcast_mut::<Y>().is_some() == (i == j), "a boxed leaf of type {} is cast to type {} (mutable), or refused as its own", i, j);
            if i == j {
                ensure!(x.downcast_ref::<Y>().unwrap().holds(&m), "a cast leaf of type {} holds something else", i);
                x.downcast_mut::<Y>().unwrap().change(r, &mut m);
                ensure!(x.downcast_ref::<Y>().unwrap().holds(&m), "a changed leaf of type {} holds something else", i);
                ensure!(x.root_hash() == x.downcast_ref::<Y>().unwrap().root_hash(), "a boxed leaf of type {} has another root hash", i);
            }
        });
    }
    Ok(())
}

/// A type that was not inserted is not found.
fn stranger(ctx: &mut Ctx, g: &Group, xs: &[(usize, Path)], r: &mut Rng) -> R {
    let i = r.below(LEAVES);
    if xs.iter().any(|x| x.0 == i) {
        return Ok(());
    }
    let found = leaf!(i, X => caught(|| { g.get::<X>(); }).is_ok());
    ensure!(!found, "typed access finds a leaf of type {}, which was never inserted", i);
    ctx.count("absent types not found", 1);
    Ok(())
}

pub fn c15(ctx: &mut Ctx, r: &mut Rng) -> R {
    let xs = paths(r, ctx.small);
    let seeds: BTreeMap<usize, u64> = (0..LEAVES).map(|i| (i, r.u64())).collect();
    let qs = r.u64();
    downcasts(r)?;
    ctx.count("boxed leaves cast", 1);
    ctx.sample(|| format!("group of {} leaves: {:?}", xs.len(), clip(format!("{:?}", xs), 800)));
    ctx.max("leaves", xs.len() as u64);
    ctx.max("depth of a path", xs.iter().map(|x| x.1.len()).max().unwrap_or(0) as u64);
    run_shrunk(xs, "group of (type, path)", |xs| {
        if xs.is_empty() {
            return Ok(());
        }
        let r = &mut Rng::new(qs);
        let dir = layout(xs);
        if let Node::Dir(d) = &dir {
            ctx.max("names in the top directory", d.len() as u64);
        }
        let (mut g, mut ms) = build(xs, &seeds, r.u64());
        let root = whole(ctx, &g, &dir, &ms)?;
        // Another order of insertion makes no difference.
        for _ in 0..2 {
            let mut ys = xs.to_vec();
            r.shuffle(&mut ys);
            let (h, _) = build(&ys, &seeds, r.u64());
            ensure!(h.root_hash() == root, "inserted in the order {:?}, the root hash is another", ys);
            whole(ctx, &h, &dir, &ms)?;
            ctx.count("insertion orders compared", 1);
        }
        for round in 0..r.range(1, 5) {
            if crate::report::late() {
                return Ok(());
            }
            let root = whole(ctx, &g, &dir, &ms).map_err(|f| Fail(format!("after {} rounds of changes: {}", round, f.0)))?;
            for _ in 0..r.range(1, 5) {
                witness(ctx, r, &g, &dir, xs, &root).map_err(|f| Fail(format!("after {} rounds of changes: {}", round, f.0)))?;
            }
            for _ in 0..r.range(1, 6) {
                let i = r.pick(xs).0;
                let m = ms.get_mut(&i).unwrap();
                let s = r.u64();
                leaf!(i, X => g.get_mut::<X>().change(&mut Rng::new(s), m));
                ctx.count("changes through get_mut", 1);
            }
            // The changed contents are in the very next root hash and witness.
            if r.chance(1, 2) {
                let before = g.root_hash();
                let w = g.witness().build();
                ensure!(tree::from(&w).hash() == before, "the empty witness does not hash to the root hash after changes");
            }
        }
        let root = whole(ctx, &g, &dir, &ms)?;
        witness(ctx, r, &g, &dir, xs, &root)?;
        stranger(ctx, &g, xs, r)?;
        if !cfg!(miri) {
            refusals(ctx, r, xs, &seeds)?;
        }
        Ok(())
    })
}

/// For C16: the trees of one history of a group.
pub fn notes(xs: &[(usize, Path)], seeds: &BTreeMap<usize, u64>, r: &mut Rng, mut put: impl FnMut(String, &HashTree<'_>)) {
    let (mut g, mut ms) = build(xs, seeds, r.u64());
    for round in 0..3 {
        put(format!("full tree in round {}", round), &g.as_hash_tree());
        put(format!("root hash in round {}", round), &HashTree::Pruned(g.root_hash()));
        for _ in 0..2 {
            let mut ray = g.witness();
            for (i, _) in xs {
                if r.chance(1, 3) {
                    let part = if r.chance(1, 2) { Some(r.u64()) } else { None };
                    ray = leaf!(*i, X => match part {
                        None => ray.full::<X>(),
                        Some(how) => ray.partial::<X, _>(|x| x.part(how)),
                    });
                }
            }
            put(format!("witness in round {}", round), &ray.build());
        }
        for _ in 0..r.range(1, 4) {
            let i = r.pick(xs).0;
            let m = ms.get_mut(&i).unwrap();
            let s = r.u64();
            leaf!(i, X => g.get_mut::<X>().change(&mut Rng::new(s), m));
        }
    }
}
