//! Monitors over map histories: C01 (dictionary), C02 (root hash), C03-C06
//! (witnesses), C19 (queries have no effect).

use crate::hist::*;
use crate::kinds::{Key, Val};
use crate::report::{Ctx, Fail, Tier, R};
use crate::tree::{self, T};
use crate::util::{hex, Rng, Sig};
use crate::wit::*;
use crate::{ensure, fail};
use certified_vars::rbtree::iterator::RbTreeIterator;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Map};
use std::collections::BTreeMap;

pub fn big(ctx: &Ctx) -> usize {
    if ctx.small {
        10
    } else if ctx.tier == Tier::Quick {
        1200
    } else {
        4000
    }
}

fn sig_of<K: Key, V>(m: &BTreeMap<K, V>, extra: &str) -> u64 {
    let mut s = Sig::new();
    s.add(extra.as_bytes());
    s.num(m.len() as u64);
    for k in m.keys() {
        s.add(&k.bytes());
    }
    s.0
}

pub fn describe<K: Key, V: Val>(name: &str) -> String {
    format!("{}<{}, {}>", name, K::NAME, V::NAME)
}

// ---------------------------------------------------------------- C01

pub fn c01<K: Key, V: Val>(ctx: &mut Ctx, r: &mut Rng) -> R {
    if r.chance(1, 2) {
        c01_on::<K, V, Map<K, V>>(ctx, r)
    } else {
        c01_on::<K, V, RbTree<K, V>>(ctx, r)
    }
}

fn c01_on<K: Key, V: Val, S: Subject<K, V>>(ctx: &mut Ctx, r: &mut Rng) -> R {
    let sh = shape(r, big(ctx));
    let (keys, ops) = history::<K, V>(r, sh);
    let what = describe::<K, V>(S::NAME);
    ctx.sample(|| format!("{}: {} operations over {} keys, starting {:?}", what, ops.len(), keys.len(), &ops[..ops.len().min(4)]));
    let qseed = r.u64();
    run_shrunk(ops, &what, |ops| {
        let mut q = Rng::new(qseed);
        let total = ops.len();
        drive::<K, V, S>(ops, |i, op, s, m, got, want| {
            note_op(ctx, op);
            ensure!(got == want, "step {} {:?} returned {:?}, a dictionary returns {:?}", i, op, got, want);
            dictionary(ctx, &mut q, i, op, s.tree(), m, &keys)?;
            if let Some(map) = s.as_map() {
                ensure!(map.len() == m.len() && map.is_empty() == m.is_empty(), "map length is {}, should be {}", map.len(), m.len());
                let t: &RbTree<K, V> = map.as_ref();
                ensure!(t.len() == m.len(), "the tree of a map has length {}, should have {}", t.len(), m.len());
            }
            if due(i, total, m.len(), 8) {
                iteration(ctx, s.tree(), m)?;
                if let Some(map) = s.as_map() {
                    iterate(map.iter(), m)?;
                    let mut it = map.iter();
                    for (k, v) in m {
                        ensure!(map.get(k) == Some(v), "get({:?}) after step {} is {:?}, should be {:?}", k, i, map.get(k), v);
                        ensure!(it.next() == Some((k, v)), "map iteration differs");
                    }
                }
                if m.len() >= 2 {
                    ctx.seen(sig_of(m, op.kind()));
                } else {
                    ctx.trivial();
                }
            }
            Ok(())
        })
    })
}

pub fn dictionary<K: Key, V: Val>(ctx: &mut Ctx, q: &mut Rng, i: usize, op: &Op<K, V>, t: &RbTree<K, V>, m: &BTreeMap<K, V>, keys: &[K]) -> R {
    ensure!(t.len() == m.len(), "len() is {} after step {} {:?}, should be {}", t.len(), i, op, m.len());
    ensure!(t.is_empty() == m.is_empty(), "is_empty() is {} with {} entries", t.is_empty(), m.len());
    for j in 0..4 {
        let k = match (j, op.key()) {
            (0, Some(k)) => k,
            _ => q.pick(keys),
        };
        let want = m.get(k);
        let a = t.get(k);
        ensure!(a == want, "after step {} {:?}, get({:?}) is {:?}, should be {:?}", i, op, k, a, want);
        let b = K::get_b(t, k);
        ensure!(b == want, "get of the borrowed key {:?} is {:?}, should be {:?}", k, b, want);
        let c = t.get_with(|x| k.cmp(x));
        ensure!(c == want, "get_with for {:?} is {:?}, should be {:?}", k, c, want);
        ctx.count("lookups", 3);
        if K::PREFIX && j < 2 {
            let p = K::gen_prefix(q, k);
            let want = m.iter().rev().find(|(k, _)| k.has_prefix(&p));
            let got = K::max_prefix(t, &p);
            ensure!(got == want, "max_entry_with_prefix({}) is {:?}, should be {:?}", hex(&p), got, want);
            ctx.count("maximum-with-prefix queries", 1);
        }
    }
    Ok(())
}

pub fn iterate<K: Key, V: Val>(mut it: RbTreeIterator<'_, K, V>, m: &BTreeMap<K, V>) -> R {
    let mut left = m.len();
    let mut want = m.iter();
    loop {
        let h = it.size_hint();
        ensure!(h == (left, Some(left)), "size_hint is {:?} with {} entries left", h, left);
        let got = it.next();
        let w = want.next();
        ensure!(got == w, "iteration gives {:?}, should be {:?}", got, w);
        if w.is_none() {
            break;
        }
        left -= 1;
    }
    ensure!(it.next().is_none() && it.next().is_none(), "iteration continues after its end");
    ensure!(it.size_hint() == (0, Some(0)), "size_hint after the end is {:?}", it.size_hint());
    Ok(())
}

fn iteration<K: Key, V: Val>(ctx: &mut Ctx, t: &RbTree<K, V>, m: &BTreeMap<K, V>) -> R {
    iterate(RbTreeIterator::new(t), m)?;
    let seen = std::cell::RefCell::new(vec![]);
    t.for_each(|k, v| seen.borrow_mut().push((k as *const K, v as *const V)));
    let seen = seen.into_inner();
    ensure!(seen.len() == m.len(), "for_each visits {} entries of {}", seen.len(), m.len());
    for ((k, v), (mk, mv)) in seen.iter().zip(m.iter()) {
        let (k, v) = unsafe { (&**k, &**v) };
        ensure!(k == mk && v == mv, "for_each gives ({:?}, {:?}), should be ({:?}, {:?})", k, v, mk, mv);
    }
    ctx.count("full iterations", 2);
    ctx.max("entries", m.len() as u64);
    Ok(())
}

// ---------------------------------------------------------------- C02

pub fn c02<K: Key, V: Val>(ctx: &mut Ctx, r: &mut Rng) -> R {
    if r.chance(1, 2) {
        c02_on::<K, V, Map<K, V>>(ctx, r)
    } else {
        c02_on::<K, V, RbTree<K, V>>(ctx, r)
    }
}

/// The root hash, the full tree and the contents, against each other.
pub fn committed(ctx: &mut Ctx, root: &tree::H, full: &certified_vars::HashTree<'_>, v: &View) -> R {
    let t = tree::from(full);
    let h = t.hash();
    ensure!(*root == h, "the root hash {} is not the hash {} of the full tree {:?}", hex(root), hex(&h), t);
    let items = t.items();
    ensure!(items.len() == v.len(), "the full tree has {} entries, the collection {}", items.len(), v.len());
    let mut s = Sig::new();
    for (i, it) in items.iter().enumerate() {
        match it {
            tree::Item::Key(l, sub) => {
                ensure!(*l == &v.labels[i][..] && **sub == v.vals[i], "entry {} of the full tree is {}=>{:?}, should be {}=>{:?}", i, hex(l), sub, hex(&v.labels[i]), v.vals[i]);
                s.num(l.len() as u64);
                s.add(l);
                let mut e = vec![];
                tree::encode(sub, &mut e);
                s.add(&e);
            }
            other => fail!("entry {} of the full tree is {:?}", i, other),
        }
    }
    if ctx.roots.len() < 400_000 {
        let old = ctx.roots.insert(*root, s.0);
        ensure!(old.map_or(true, |o| o == s.0), "two collections with different contents have the root hash {}", hex(root));
    }
    ctx.count("root hashes compared with the hash of the full tree", 1);
    if v.len() >= 2 {
        ctx.seen(s.0);
    } else {
        ctx.trivial();
    }
    ctx.max("entries", v.len() as u64);
    Ok(())
}

fn c02_on<K: Key, V: Val, S: Subject<K, V>>(ctx: &mut Ctx, r: &mut Rng) -> R {
    let mut sh = shape(r, big(ctx));
    if r.chance(2, 3) {
        sh.exotic = r.range(4, 9);
    }
    let (keys, ops) = history::<K, V>(r, sh);
    let what = describe::<K, V>(S::NAME);
    ctx.sample(|| format!("{}: {} operations over {} keys, starting {:?}", what, ops.len(), keys.len(), &ops[..ops.len().min(4)]));
    // Looking at the root brings cached hashes up to date, so some histories
    // look rarely.
    let look = *r.pick(&[1usize, 1, 2, 7, 30]);
    let qseed = r.u64();
    run_shrunk(ops, &what, |ops| {
        let mut q = Rng::new(qseed);
        let total = ops.len();
        let mut before: Option<tree::H> = None;
        drive::<K, V, S>(ops, |i, op, s, m, _, _| {
            note_op(ctx, op);
            if !(i + 1 == total || due(i, total, m.len(), 12) && q.chance(1, look)) {
                return Ok(());
            }
            let v = View::of(m);
            let (root, full) = if q.chance(1, 2) {
                let f = s.tree().as_hash_tree();
                (s.root(), f)
            } else {
                (s.root(), s.tree().as_hash_tree())
            };
            committed(ctx, &root, &full, &v).map_err(|f| Fail(format!("after step {} {:?}: {}", i, op, f.0)))?;
            ensure!(s.tree().root_hash() == root, "the tree and the map report different root hashes");
            if before.is_some() && before != Some(root) {
                ctx.count("root hash changes seen", 1);
            }
            before = Some(root);
            Ok(())
        })
    })
}

// ---------------------------------------------------------------- C03 - C06

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Judge {
    Hash,
    KeyProof,
    Complete,
    Minimal,
}

fn kinds_for(j: Judge) -> &'static [usize] {
    match j {
        Judge::Hash | Judge::Minimal => &[0, 1, 2, 3, 4, 5, 6, 7, 8],
        Judge::KeyProof => &[0, 1, 0, 2],
        Judge::Complete => &[3, 4, 5, 6, 7, 8, 8],
    }
}

fn structure(t: &T, s: &mut Sig) {
    match t {
        T::Empty => s.num(1),
        T::Fork(p) => {
            s.num(2);
            structure(&p.0, s);
            structure(&p.1, s);
        }
        T::Labeled(_, t) => {
            s.num(3);
            structure(t, s);
        }
        T::Leaf(_) => s.num(4),
        T::Pruned(_) => s.num(5),
    }
}

/// Judge one witness.
pub fn judge(ctx: &mut Ctx, j: Judge, root: &tree::H, v: &View, q: &Req, w: &certified_vars::HashTree<'_>) -> R {
    let t = tree::from(w);
    let tag = |r: R| r.map_err(|f| Fail(format!("{} for {:?} over {} entries: {} (witness {})", q.kind(), q, v.len(), f.0, crate::util::clip(format!("{:?}", t), 1500))));
    let h = t.hash();
    let hash = || -> R {
        ensure!(h == *root, "the witness hashes to {}, the root hash is {}", hex(&h), hex(root));
        Ok(())
    };
    match j {
        Judge::Hash => {
            tag(hash())?;
            tag(if w.reconstruct() == *root { Ok(()) } else { Err(Fail("reconstruct() differs from the root hash".into())) })?;
        }
        Judge::KeyProof => {
            // What a client gets is the serialized form.
            let bytes = serde_cbor::to_vec(w).map_err(|e| Fail(format!("the witness does not serialize: {}", e)))?;
            let d = tree::decode(&bytes).map_err(|e| Fail(format!("the serialized witness does not decode: {}", e)))?;
            tag(if d.hash() == *root { Ok(()) } else { Err(Fail("the decoded witness does not hash to the root hash".into())) })?;
            tag(complete(v, q, &d))?;
        }
        Judge::Complete => {
            tag(hash())?;
            tag(complete(v, q, &t))?;
        }
        Judge::Minimal => tag(minimal(v, q, &t))?,
    }
    ctx.count(q.kind(), 1);
    if v.len() >= 2 {
        let mut s = Sig::new();
        s.add(format!("{:?} {}", q, v.len()).as_bytes());
        structure(&t, &mut s);
        ctx.seen(s.0);
    } else {
        ctx.trivial();
    }
    ctx.max("entries", v.len() as u64);
    Ok(())
}

pub fn witnesses<K: Key, V: Val>(ctx: &mut Ctx, r: &mut Rng, j: Judge) -> R {
    if r.chance(1, 2) {
        witnesses_on::<K, V, Map<K, V>>(ctx, r, j)
    } else {
        witnesses_on::<K, V, RbTree<K, V>>(ctx, r, j)
    }
}

pub fn judge_all<K: Key, V: Val, S: Subject<K, V>>(ctx: &mut Ctx, j: Judge, s: &S, m: &BTreeMap<K, V>, asks: &[Ask<K>], late_root: bool) -> R {
    let v = View::of(m);
    let sorted: Vec<&K> = m.keys().collect();
    let mut root = if late_root { None } else { Some(s.root()) };
    for a in asks {
        if crate::report::late() {
            break;
        }
        let q = req(m, &sorted, a);
        let w = match s.as_map() {
            Some(m) => ask_map(m, a),
            None => ask_tree(s.tree(), a),
        };
        let rt = *root.get_or_insert_with(|| s.root());
        judge(ctx, j, &rt, &v, &q, &w).map_err(|f| Fail(format!("{:?}: {}", a, f.0)))?;
        // The same question through the tree.
        if s.as_map().is_some() && matches!(a, Ask::Key(_)) {
            let w = ask_tree(s.tree(), a);
            judge(ctx, j, &rt, &v, &q, &w)?;
        }
    }
    Ok(())
}

fn witnesses_on<K: Key, V: Val, S: Subject<K, V>>(ctx: &mut Ctx, r: &mut Rng, j: Judge) -> R {
    let sh = shape(r, big(ctx) / 2);
    let (keys, ops) = history::<K, V>(r, sh);
    let what = describe::<K, V>(S::NAME);
    ctx.sample(|| format!("{}: {} operations over {} keys, then {:?} ...", what, ops.len(), keys.len(), gen_ask(&mut r.clone(), &keys, 4)));
    let look = *r.pick(&[1usize, 2, 4]);
    let qseed = r.u64();
    let exhaustive = !ctx.small && keys.len() <= 10 && r.chance(1, 5);
    run_shrunk(ops, &what, |ops| {
        let mut q = Rng::new(qseed);
        let total = ops.len();
        drive::<K, V, S>(ops, |i, op, s, m, _, _| {
            let last = i + 1 == total;
            if !(last || due(i, total, m.len(), 6) && q.chance(1, look)) {
                return Ok(());
            }
            let mut asks = vec![];
            for k in kinds_for(j) {
                let n = if last { 3 } else { 1 };
                for _ in 0..n {
                    // The all-keys witness is the size of the map.
                    if *k == 3 && !last && m.len() > 100 {
                        continue;
                    }
                    asks.push(gen_ask(&mut q, &keys, *k));
                }
            }
            if last && exhaustive {
                for a in &keys {
                    asks.push(Ask::Key(a.clone()));
                    asks.push(Ask::KeyBorrowed(a.clone()));
                    asks.push(Ask::Nested(a.clone()));
                    for b in &keys {
                        if a <= b && !matches!(j, Judge::KeyProof) {
                            asks.push(Ask::KeyRange(a.clone(), b.clone()));
                            asks.push(Ask::ValueRange(a.clone(), b.clone()));
                        }
                    }
                }
                if matches!(j, Judge::Complete) {
                    asks.retain(|a| !matches!(a, Ask::Key(_) | Ask::KeyBorrowed(_) | Ask::Nested(_)));
                }
            }
            let late = q.chance(1, 2);
            judge_all(ctx, j, s, m, &asks, late).map_err(|f| Fail(format!("after step {} {:?}: {}", i, op, f.0)))
        })
    })
}

// ---------------------------------------------------------------- C19

pub fn c19<K: Key, V: Val>(ctx: &mut Ctx, r: &mut Rng) -> R {
    if r.chance(1, 2) {
        c19_on::<K, V, Map<K, V>>(ctx, r)
    } else {
        c19_on::<K, V, RbTree<K, V>>(ctx, r)
    }
}

/// One random query; returns a digest of its answer.
fn query<K: Key, V: Val, S: Subject<K, V>>(ctx: &mut Ctx, q: &mut Rng, s: &mut S, keys: &[K]) -> R<u64> {
    let seed = q.u64();
    let kind = q.below(14);
    let once = |s: &mut S| -> u64 {
        let mut q = Rng::new(seed);
        let mut sig = Sig::new();
        let k = q.pick(keys).clone();
        match kind {
            0 => sig.add(&s.root()),
            1 => sig.add(&serde_cbor::to_vec(&s.tree().as_hash_tree()).unwrap_or_default()),
            2 => sig.add(format!("{:?} {:?}", s.tree().get(&k), K::get_b(s.tree(), &k)).as_bytes()),
            3 => {
                let n = q.below(keys.len() + 2);
                for (k, v) in RbTreeIterator::new(s.tree()).take(n) {
                    sig.add(format!("{:?}{:?}", k, v).as_bytes());
                }
            }
            4 => {
                let c = std::cell::RefCell::new(Sig::new());
                s.tree().for_each(|k, v| c.borrow_mut().add(format!("{:?}{:?}", k, v).as_bytes()));
                sig = c.into_inner();
            }
            5..=8 => {
                let n = q.below(9);
                let a = gen_ask(&mut q, keys, n);
                let w = match s.as_map() {
                    Some(m) => ask_map(m, &a),
                    None => ask_tree(s.tree(), &a),
                };
                sig.add(&serde_cbor::to_vec(&w).unwrap_or_default());
            }
            9 => {
                use certified_vars::rbtree::entry::Entry;
                match s.entry(k) {
                    Entry::Occupied(o) => sig.add(format!("O{:?}{:?}", o.key(), o.get()).as_bytes()),
                    Entry::Vacant(v) => sig.add(format!("V{:?}", v.into_key()).as_bytes()),
                }
            }
            10 => {
                let e = s.entry(k);
                sig.add(format!("{:?} {:?}", e.key(), e).as_bytes());
            }
            11 => {
                if let Some(m) = s.as_map() {
                    sig.add(format!("{:?}", m).as_bytes());
                    sig.num(m.len() as u64);
                }
                sig.num(s.tree().len() as u64);
                sig.num(s.tree().is_empty() as u64);
            }
            12 => {
                if K::PREFIX {
                    let p = K::gen_prefix(&mut q, &k);
                    sig.add(format!("{:?}", K::max_prefix(s.tree(), &p)).as_bytes());
                }
            }
            _ => {
                // A mutable route that changes nothing.
                let e = s.entry(k.clone()).and_modify(|v| {
                    let x = v.clone();
                    *v = x;
                });
                drop(e);
                sig.add(format!("{:?}", s.tree().get(&k)).as_bytes());
            }
        }
        sig.0
    };
    let a = once(s);
    let b = once(s);
    ensure!(a == b, "asking the same query (kind {}, seed {}) twice gave two answers", kind, seed);
    ctx.count("queries asked twice", 1);
    Ok(a)
}

fn c19_on<K: Key, V: Val, S: Subject<K, V>>(ctx: &mut Ctx, r: &mut Rng) -> R {
    let sh = shape(r, big(ctx) / 2);
    let (keys, ops) = history::<K, V>(r, sh);
    let what = describe::<K, V>(S::NAME);
    ctx.sample(|| format!("{}: {} operations over {} keys, starting {:?}", what, ops.len(), keys.len(), &ops[..ops.len().min(4)]));
    let qseed = r.u64();
    let rate = *r.pick(&[1usize, 2, 5]);
    let per = r.range(1, 3);
    let peek = *r.pick(&[1usize, 3, 1000]);
    run_shrunk(ops, &what, |ops| {
        let mut q = Rng::new(qseed);
        let total = ops.len();
        let mut plain = S::new();
        let mut asked = S::new();
        for (i, op) in ops.iter().enumerate() {
            if (keys.len() <= 60 || q.chance(1, 10)) && q.chance(1, rate) {
                for _ in 0..per {
                    query(ctx, &mut q, &mut asked, &keys)?;
                }
            }
            let a = plain.apply(op.clone());
            let b = asked.apply(op.clone());
            ensure!(a == b, "step {} {:?} returns {:?} without and {:?} with queries before it", i, op, a, b);
            ensure!(plain.tree().len() == asked.tree().len(), "lengths differ after step {}", i);
            if i + 1 == total || due(i, total, keys.len(), 6) && q.chance(1, peek) {
                ensure!(plain.root() == asked.root(), "root hashes differ after step {} {:?}", i, op);
                let full = tree::from(&plain.tree().as_hash_tree());
                ensure!(full == tree::from(&asked.tree().as_hash_tree()), "full trees differ after step {}", i);
                let n = if i + 1 == total { 18 } else { 4 };
                for j in 0..n {
                    let a = gen_ask(&mut q, &keys, j);
                    let (x, y) = (ask_tree(plain.tree(), &a), ask_tree(asked.tree(), &a));
                    ensure!(x == y, "the witness for {:?} differs after step {}", a, i);
                    ctx.count("witness pairs compared", 1);
                }
                let mut s = Sig::new();
                structure(&full, &mut s);
                s.num(i as u64);
                if plain.tree().len() >= 2 {
                    ctx.seen(s.0);
                } else {
                    ctx.trivial();
                }
            }
        }
        Ok(())
    })
}
