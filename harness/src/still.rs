//! C19 for sequences, paged collections, groups, nested maps and encodings:
//! the same history runs twice, once with queries strewn in, and both runs
//! have to agree on everything.

use crate::group::{self, *};
use crate::hist::{history, run_shrunk, shape, Op as MapOp, Subject};
use crate::kinds::{pool, Comp, Key, Val};
use crate::mapchk::big;
use crate::report::{Ctx, R};
use crate::seqc::Elem;
use crate::ser::{enc, Fmt, Wire};
use crate::tree;
use crate::util::{clip, Rng, Sig};
use crate::{ensure, leaf};
use candid::{Nat, Principal};
use certified_vars::collections::group::Group;
use certified_vars::{AsHashTree, HashTree, Map, Paged, Seq};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::rc::Rc;

trait Still {
    type Op: Clone + Debug;
    /// Makes a change; returns what the caller gets back.
    fn apply(&mut self, op: &Self::Op) -> String;
    /// Asks something; returns a digest of the answer.
    fn ask(&mut self, kind: usize, q: &mut Rng) -> u64;
    const KINDS: usize;
    /// Everything that can be observed.
    fn state(&self) -> Vec<(&'static str, Vec<u8>)>;
    fn size(&self) -> usize;
}

fn t(h: &HashTree<'_>) -> Vec<u8> {
    let mut e = vec![];
    tree::encode(&tree::from(h), &mut e);
    e
}

fn compare<S: Still>(ctx: &mut Ctx, r: &mut Rng, what: &str, make: impl Fn() -> S, ops: Vec<S::Op>) -> R {
    let qseed = r.u64();
    let rate = *r.pick(&[1usize, 2, 5]);
    let per = r.range(1, 4);
    let peek = *r.pick(&[1usize, 3, 1000]);
    ctx.sample(|| format!("{}: {} changes, starting {:?}", what, ops.len(), &ops[..ops.len().min(4)]));
    run_shrunk(ops, what, |ops| {
        let mut q = Rng::new(qseed);
        let mut plain = make();
        let mut asked = make();
        for i in 0..=ops.len() {
            if q.chance(1, rate) {
                for _ in 0..per {
                    let (kind, seed) = (q.below(S::KINDS), q.u64());
                    let a = asked.ask(kind, &mut Rng::new(seed));
                    let b = asked.ask(kind, &mut Rng::new(seed));
                    ensure!(a == b, "before step {}: asking the same query (kind {}, seed {}) twice gave two answers", i, kind, seed);
                    ctx.count("queries asked twice", 1);
                }
            }
            if let Some(op) = ops.get(i) {
                let (a, b) = (plain.apply(op), asked.apply(op));
                ensure!(a == b, "step {} {:?} returns {} without and {} with queries before it", i, op, clip(a.clone(), 600), clip(b.clone(), 600));
            }
            let last = i >= ops.len();
            if last || q.chance(1, peek) && (ops.len() <= 60 || i % 10 == 0) {
                let (a, b) = (plain.state(), asked.state());
                let mut s = Sig::new();
                s.num(i as u64);
                for ((n, x), (_, y)) in a.iter().zip(b.iter()) {
                    ensure!(x == y, "after step {} the {} differs: {} without and {} with queries", i, n, clip(format!("{:?}", x), 600), clip(format!("{:?}", y), 600));
                    s.add(x);
                    ctx.count("observations compared between runs", 1);
                }
                // The same answers, too.
                for _ in 0..if last { 8 } else { 2 } {
                    let (kind, seed) = (q.below(S::KINDS), q.u64());
                    let b = asked.ask(kind, &mut Rng::new(seed));
                    let mut fresh = make();
                    if last && ops.len() <= 200 {
                        for op in ops {
                            fresh.apply(op);
                        }
                        let a = fresh.ask(kind, &mut Rng::new(seed));
                        ensure!(a == b, "after step {} a query (kind {}, seed {}) has another answer than in a run that was never asked before", i, kind, seed);
                        ctx.count("answers compared with those of a fresh run", 1);
                    }
                }
                if plain.size() >= 2 {
                    ctx.seen(s.0);
                } else {
                    ctx.trivial();
                }
            }
        }
        Ok(())
    })
}

// ------------------------------------------------------------ sequences

#[derive(Clone, Debug)]
enum SeqOp<T> {
    Append(T),
    Extend(Vec<T>),
    Refs(Vec<T>),
    Clear,
    Rebuild(u8),
}

impl<T: Elem> Still for Seq<T> {
    type Op = SeqOp<T>;
    fn apply(&mut self, op: &SeqOp<T>) -> String {
        match op.clone() {
            SeqOp::Append(x) => self.append(x),
            SeqOp::Extend(xs) => self.extend(xs),
            SeqOp::Refs(xs) => T::extend_refs(self, &xs),
            SeqOp::Clear => self.clear(),
            SeqOp::Rebuild(0) => *self = Seq::from(self.as_vec().clone()),
            SeqOp::Rebuild(1) => *self = self.clone(),
            SeqOp::Rebuild(_) => *self = self.iter().cloned().collect(),
        }
        format!("{}", self.len())
    }
    const KINDS: usize = 11;
    fn ask(&mut self, kind: usize, q: &mut Rng) -> u64 {
        let mut s = Sig::new();
        match kind {
            0 => s.add(&self.root_hash()),
            1 => s.add(&t(&self.as_hash_tree())),
            2 => {
                s.num(self.len() as u64);
                s.num(self.is_empty() as u64);
            }
            3 => {
                let n = q.below(self.len() + 2);
                self.iter().take(n).for_each(|x| s.add(format!("{:?}", x).as_bytes()));
            }
            4 if !self.is_empty() => s.add(format!("{:?}", self[q.below(self.len())]).as_bytes()),
            5 => {
                // A clone, changed and thrown away.
                let mut c = self.clone();
                c.append(T::gen(q));
                if q.chance(1, 2) {
                    c.clear();
                }
                s.add(&c.root_hash());
            }
            6 => s.add(format!("{:?}", self).as_bytes()),
            7 => s.add(format!("{:?} {:?}", enc(Fmt::Cbor, self), enc(Fmt::Candid, self)).as_bytes()),
            8 => s.num((*self == self.clone()) as u64 + 2 * (*self == Seq::from(self.as_vec().clone())) as u64),
            // Room is not content.
            9 => self.reserve(q.below(40)),
            10 => self.shrink_to_fit(),
            _ => {}
        }
        s.0
    }
    fn state(&self) -> Vec<(&'static str, Vec<u8>)> {
        vec![
            ("root hash", self.root_hash().to_vec()),
            ("hash tree", t(&self.as_hash_tree())),
            ("content", format!("{:?}", self.as_vec()).into_bytes()),
            ("CBOR encoding", format!("{:?}", enc(Fmt::Cbor, self)).into_bytes()),
            ("Candid encoding", format!("{:?}", enc(Fmt::Candid, self)).into_bytes()),
            ("comparison with a sequence of the same items", vec![(*self == Seq::from(self.as_vec().clone())) as u8]),
        ]
    }
    fn size(&self) -> usize {
        self.len()
    }
}

fn seq<T: Elem>(ctx: &mut Ctx, r: &mut Rng) -> R {
    let n = if ctx.small { r.range(1, 10) } else { r.range(1, 30) };
    let ops = (0..n)
        .map(|_| {
            let list = |r: &mut Rng| (0..r.below(5)).map(|_| T::gen(r)).collect::<Vec<T>>();
            match r.below(12) {
                0..=5 => SeqOp::Append(T::gen(r)),
                6 | 7 => SeqOp::Extend(list(r)),
                8 => SeqOp::Refs(list(r)),
                9 => SeqOp::Clear,
                _ => SeqOp::Rebuild(r.below(3) as u8),
            }
        })
        .collect();
    compare(ctx, r, &format!("Seq<{}>", T::NAME), Seq::<T>::new, ops)
}

// ------------------------------------------------- paged collections

struct Pages<K: Key + Wire, V: Elem, const S: usize> {
    p: Paged<K, V, S>,
    keys: Vec<K>,
}

impl<K: Key + Wire, V: Elem, const S: usize> Still for Pages<K, V, S> {
    type Op = (usize, V);
    fn apply(&mut self, op: &(usize, V)) -> String {
        let k = &self.keys[op.0];
        self.p.insert(k.clone(), op.1.clone());
        format!("{:?}", self.p.get_last_page_number(k))
    }
    const KINDS: usize = 9;
    fn ask(&mut self, kind: usize, q: &mut Rng) -> u64 {
        let mut s = Sig::new();
        let p = &self.p;
        let k = if q.chance(1, 6) { K::gen(q, 3, 1) } else { q.pick(&self.keys).clone() };
        let n = p.get_last_page_number(&k).map_or(0, |x| x + 1);
        let page = if q.chance(1, 8) { usize::MAX - q.below(2) } else { q.below(n + 2) };
        match kind {
            0 => s.add(&p.root_hash()),
            1 => s.add(&t(&p.as_hash_tree())),
            2 => s.num(n as u64),
            3 => s.add(format!("{:?}", p.get(&k, page)).as_bytes()),
            4 => s.add(&t(&p.witness(&k, page))),
            5 => s.add(&t(&p.witness_last_page_number(&k))),
            6 => s.add(format!("{:?}", p).as_bytes()),
            7 => s.add(format!("{:?}", enc(Fmt::Cbor, p)).as_bytes()),
            _ => s.add(format!("{:?}", enc(Fmt::Candid, p)).as_bytes()),
        }
        s.0
    }
    fn state(&self) -> Vec<(&'static str, Vec<u8>)> {
        let p = &self.p;
        let mut v = vec![
            ("root hash", p.root_hash().to_vec()),
            ("hash tree", t(&p.as_hash_tree())),
            ("content", format!("{:?}", p).into_bytes()),
            ("CBOR encoding", format!("{:?}", enc(Fmt::Cbor, p)).into_bytes()),
            ("Candid encoding", format!("{:?}", enc(Fmt::Candid, p)).into_bytes()),
        ];
        for k in &self.keys {
            v.push(("last page number", format!("{:?} {:?}", k, p.get_last_page_number(k)).into_bytes()));
            v.push(("witness of the last page", t(&p.witness_last_page_number(k))));
        }
        v
    }
    fn size(&self) -> usize {
        self.keys.iter().map(|k| self.p.get_last_page_number(k).map_or(0, |x| x + 1)).sum()
    }
}

fn paged<K: Key + Wire, V: Elem, const S: usize>(ctx: &mut Ctx, r: &mut Rng) -> R {
    let nk = r.range(1, 6);
    let keys: Vec<K> = pool(r, nk);
    let n = if ctx.small { r.range(1, 12) } else { r.range(1, 60) };
    let ops = (0..n).map(|_| (r.below(keys.len()), V::gen(r))).collect();
    compare(ctx, r, &format!("Paged<{}, {}, {}> with keys {:?}", K::NAME, V::NAME, S, keys), || Pages::<K, V, S> { p: Paged::new(), keys: keys.clone() }, ops)
}

// --------------------------------------------------------------- groups

struct Grp {
    g: Group,
    ms: BTreeMap<usize, M>,
    types: Vec<usize>,
}

impl Still for Grp {
    type Op = (usize, u64);
    fn apply(&mut self, op: &(usize, u64)) -> String {
        let i = self.types[op.0 % self.types.len()];
        let m = self.ms.get_mut(&i).unwrap();
        leaf!(i, X => {
            let x = self.g.get_mut::<X>();
            x.change(&mut Rng::new(op.1), m);
            format!("{}", x.holds(m))
        })
    }
    const KINDS: usize = 7;
    fn ask(&mut self, kind: usize, q: &mut Rng) -> u64 {
        let mut s = Sig::new();
        let i = *q.pick(&self.types);
        match kind {
            0 => s.add(&self.g.root_hash()),
            1 => s.add(&t(&self.g.as_hash_tree())),
            2 => s.num(leaf!(i, X => self.g.get::<X>().holds(&self.ms[&i])) as u64),
            3 => s.add(&leaf!(i, X => self.g.get::<X>().root_hash())),
            4 | 5 => {
                let mut ray = self.g.witness();
                for _ in 0..q.below(self.types.len() + 1) {
                    let i = *q.pick(&self.types);
                    let how = q.u64();
                    ray = leaf!(i, X => if how % 2 == 0 { ray.full::<X>() } else { ray.partial::<X, _>(|x| x.part(how)) });
                }
                if kind == 4 {
                    s.add(&t(&ray.build()));
                }
            }
            _ => {
                // Mutable access that changes nothing.
                leaf!(i, X => {
                    let x = self.g.get_mut::<X>();
                    s.add(&x.root_hash());
                });
            }
        }
        s.0
    }
    fn state(&self) -> Vec<(&'static str, Vec<u8>)> {
        let mut v = vec![
            ("root hash", self.g.root_hash().to_vec()),
            ("hash tree", t(&self.g.as_hash_tree())),
            ("empty witness", t(&self.g.witness().build())),
        ];
        for i in &self.types {
            v.push(("leaf", leaf!(*i, X => t(&self.g.get::<X>().as_hash_tree()))));
            v.push(("leaf witness", leaf!(*i, X => t(&self.g.witness().full::<X>().build()))));
        }
        v
    }
    fn size(&self) -> usize {
        self.types.len()
    }
}

fn groups(ctx: &mut Ctx, r: &mut Rng) -> R {
    let xs = group::paths(r, ctx.small);
    let seeds: BTreeMap<usize, u64> = (0..group::LEAVES).map(|i| (i, r.u64())).collect();
    let n = r.range(1, 12);
    let ops = (0..n).map(|_| (r.below(1000), r.u64())).collect();
    let form = r.u64();
    let make = || {
        let (g, ms) = group::build(&xs, &seeds, form);
        Grp { g, ms, types: xs.iter().map(|x| x.0).collect() }
    };
    compare(ctx, r, &format!("group of (type, path) {:?}", clip(format!("{:?}", xs), 1500)), make, ops)
}

// ---------------------------------------------- maps and their encodings

struct Coded<K: Key + Wire, V: Val + Wire> {
    m: Map<K, V>,
    keys: Vec<K>,
}

impl<K: Key + Wire, V: Val + Wire> Still for Coded<K, V> {
    type Op = MapOp<K, V>;
    fn apply(&mut self, op: &MapOp<K, V>) -> String {
        format!("{:?}", self.m.apply(op.clone()))
    }
    const KINDS: usize = 8;
    fn ask(&mut self, kind: usize, q: &mut Rng) -> u64 {
        let mut s = Sig::new();
        let k = q.pick(&self.keys).clone();
        let m = &self.m;
        match kind {
            0 | 1 => s.add(format!("{:?}", enc(Fmt::Cbor, m)).as_bytes()),
            2 => s.add(format!("{:?}", enc(Fmt::Candid, m)).as_bytes()),
            3 => {
                // A copy through the wire, changed and thrown away.
                if let Ok(mut c) = enc(Fmt::Cbor, m).and_then(|b| crate::ser::dec::<Map<K, V>>(Fmt::Cbor, &b)) {
                    c.insert(k.clone(), V::gen(q));
                    s.add(&c.root_hash());
                    c.remove(&k);
                    s.add(&c.root_hash());
                }
            }
            4 => s.add(&m.root_hash()),
            5 => s.add(&t(&m.witness(&k))),
            6 => {
                let mut it = m.iter();
                let n = q.below(self.keys.len() + 2);
                for _ in 0..n {
                    s.add(format!("{:?} {:?}", it.next(), it.size_hint()).as_bytes());
                }
            }
            _ => s.add(&t(&m.witness_keys())),
        }
        s.0
    }
    fn state(&self) -> Vec<(&'static str, Vec<u8>)> {
        let m = &self.m;
        vec![
            ("root hash", m.root_hash().to_vec()),
            ("hash tree", t(&m.as_hash_tree())),
            ("content", format!("{:?} {}", m, m.len()).into_bytes()),
            ("CBOR encoding", format!("{:?}", enc(Fmt::Cbor, m)).into_bytes()),
            ("Candid encoding", format!("{:?}", enc(Fmt::Candid, m)).into_bytes()),
        ]
    }
    fn size(&self) -> usize {
        self.m.len()
    }
}

fn coded<K: Key + Wire, V: Val + Wire>(ctx: &mut Ctx, r: &mut Rng) -> R {
    let sh = shape(r, big(ctx) / 4);
    let (keys, ops) = history::<K, V>(r, sh);
    compare(ctx, r, &format!("Map<{}, {}>", K::NAME, V::NAME), || Coded { m: Map::new(), keys: keys.clone() }, ops)
}

// ---------------------------------------------------------- nested maps

struct Nest {
    m: Map<u8, Map<u16, Seq<u32>>>,
}

impl Still for Nest {
    type Op = (u8, u8, u16, u32);
    fn apply(&mut self, op: &Self::Op) -> String {
        let (what, a, b, x) = *op;
        match what {
            0 | 1 => {
                self.m.entry(a).or_default().append_deep(b, x);
                String::new()
            }
            2 => format!("{:?}", self.m.entry(a).or_default().insert(b, Seq::from(vec![x]))),
            3 => format!("{:?}", self.m.get_mut(&a).map(|m| m.remove(&b))),
            4 => format!("{:?}", self.m.get_mut(&a).and_then(|m| m.get_mut(&b)).map(|s| s.append(x))),
            _ => format!("{:?}", self.m.remove(&a)),
        }
    }
    const KINDS: usize = 10;
    fn ask(&mut self, kind: usize, q: &mut Rng) -> u64 {
        let mut s = Sig::new();
        let (a, b) = (q.below(5) as u8, q.below(5) as u16);
        match kind {
            0 => s.add(&self.m.root_hash()),
            1 => s.add(&t(&self.m.as_hash_tree())),
            2 => s.add(&t(&self.m.witness(&a))),
            3 => s.add(&t(&self.m.as_tree().nested_witness(&a, |x| x.witness(&b)))),
            4 => s.add(&t(&self.m.as_tree().nested_witness(&a, |x| x.witness_keys()))),
            5 => s.add(format!("{:?}", self.m.get(&a).map(|x| (x.len(), x.get(&b), x.root_hash()))).as_bytes()),
            6 => s.num(self.m.get_mut(&a).map_or(0, |x| x.len_deep(&b)) as u64),
            7 => s.add(format!("{:?}", self.m).as_bytes()),
            8 => {
                // Mutable references all the way, nothing changed.
                if let Some(x) = self.m.get_mut(&a).and_then(|m| m.get_mut(&b)) {
                    s.num(x.len() as u64);
                }
            }
            _ => s.add(format!("{:?} {:?}", enc(Fmt::Cbor, &self.m), enc(Fmt::Candid, &self.m)).as_bytes()),
        }
        s.0
    }
    fn state(&self) -> Vec<(&'static str, Vec<u8>)> {
        vec![
            ("root hash", self.m.root_hash().to_vec()),
            ("hash tree", t(&self.m.as_hash_tree())),
            ("witness of all keys", t(&self.m.witness_keys())),
            ("content", format!("{:?}", self.m).into_bytes()),
            ("CBOR encoding", format!("{:?}", enc(Fmt::Cbor, &self.m)).into_bytes()),
        ]
    }
    fn size(&self) -> usize {
        self.m.len()
    }
}

fn deep(ctx: &mut Ctx, r: &mut Rng) -> R {
    let n = r.range(1, 40);
    let ops = (0..n).map(|_| (r.below(6) as u8, r.below(4) as u8, r.below(4) as u16, r.u64() as u32)).collect();
    compare(ctx, r, "Map<u8, Map<u16, Seq<u32>>>", || Nest { m: Map::new() }, ops)
}

pub fn c19(ctx: &mut Ctx, r: &mut Rng) -> R {
    match r.below(20) {
        0 => seq::<u32>(ctx, r),
        1 => seq::<String>(ctx, r),
        2 => seq::<Seq<u16>>(ctx, r),
        3 => seq::<Nat>(ctx, r),
        4 => paged::<u16, u32, 2>(ctx, r),
        5 => paged::<String, String, 3>(ctx, r),
        6 => paged::<u8, u8, 1>(ctx, r),
        7 => paged::<Principal, u64, 4>(ctx, r),
        8 | 9 | 10 => groups(ctx, r),
        11 => coded::<String, String>(ctx, r),
        12 => coded::<u32, Nat>(ctx, r),
        13 => coded::<Comp, Seq<u16>>(ctx, r),
        14 => coded::<Principal, u64>(ctx, r),
        15 => coded::<i64, Vec<u8>>(ctx, r),
        16 => coded::<u8, u8>(ctx, r),
        _ => deep(ctx, r),
    }
}
