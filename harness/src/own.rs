//! C11: ownership. Tracked keys and values with a ledger, an allocator that
//! balances, and workloads that hold references while the collection works.
//! The same workloads run under AddressSanitizer and Miri.

use crate::{ensure, with_kind};
use crate::hist::{self, history, model, run_shrunk, Op, Ret, Shape, Subject};
use crate::kinds::{Key, Val};
use crate::report::{Ctx, Fail, Tier, R};
use crate::track::{self, quiet, TK, TV};
use crate::util::{Rng, Sig};
use crate::wit::{ask_map, ask_tree, gen_ask, Ask};
use certified_vars::collections::group::builder::GroupBuilder;
use certified_vars::collections::group::Group;
use certified_vars::rbtree::entry::Entry;
use certified_vars::rbtree::iterator::RbTreeIterator;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, HashTree, Map, Paged, Seq};
use std::collections::BTreeMap;

pub fn no_errors() -> R {
    let e = track::errors();
    ensure!(e.is_empty(), "{}", e.join("; "));
    Ok(())
}

/// Nothing tracked is alive.
pub fn none_alive(what: &str) -> R {
    no_errors()?;
    let l = track::live();
    ensure!(l == (0, 0), "{}: {} keys and {} values are still alive (were never dropped nor returned)", what, l.0, l.1);
    Ok(())
}

/// Everything allocated in `f` is freed in it. Caches that fill once are
/// forgiven by running again.
pub fn balanced(what: &str, mut f: impl FnMut() -> R) -> R {
    if cfg!(miri) {
        // Miri has its own leak check; and generic functions have no fixed
        // address there, which makes candid's type cache grow.
        return f();
    }
    let mut last = (0, 0);
    for _ in 0..3 {
        let a = track::outstanding();
        f()?;
        let b = track::outstanding();
        last = (b.0 - a.0, b.1 - a.1);
        if last == (0, 0) {
            return Ok(());
        }
    }
    Err(Fail(format!("{}: {} bytes in {} blocks are not freed, each time it runs", what, last.0, last.1)))
}

pub fn map_op<K, V, K2, V2>(op: &Op<K, V>, k: impl Fn(&K) -> K2, v: impl Fn(&V) -> V2) -> Op<K2, V2> {
    let o = |x: &Option<V>| x.as_ref().map(&v);
    match op {
        Op::Insert(a, b) => Op::Insert(k(a), v(b)),
        Op::InsertMut(a, b, c) => Op::InsertMut(k(a), v(b), o(c)),
        Op::Remove(a) => Op::Remove(k(a)),
        Op::RemoveEntry(a) => Op::RemoveEntry(k(a)),
        Op::GetMut(a, c) => Op::GetMut(k(a), o(c)),
        Op::Modify(a, c) => Op::Modify(k(a), o(c)),
        Op::ModMax(p, c) => Op::ModMax(p.clone(), o(c)),
        Op::OrInsert(a, b, c) => Op::OrInsert(k(a), v(b), o(c)),
        Op::OrInsertWith(a, b, c) => Op::OrInsertWith(k(a), v(b), o(c)),
        Op::OrInsertWithKey(a, b, c) => Op::OrInsertWithKey(k(a), v(b), o(c)),
        Op::OrDefault(a, c) => Op::OrDefault(k(a), o(c)),
        Op::AndModifyOrInsert(a, b, c) => Op::AndModifyOrInsert(k(a), v(b), v(c)),
        Op::AndModify(a, b) => Op::AndModify(k(a), v(b)),
        Op::OccGetMut(a, b, c) => Op::OccGetMut(k(a), v(b), o(c)),
        Op::OccIntoMut(a, c) => Op::OccIntoMut(k(a), o(c)),
        Op::OccRemove(a) => Op::OccRemove(k(a)),
        Op::OccRemoveEntry(a) => Op::OccRemoveEntry(k(a)),
        Op::VacInsert(a, b, c) => Op::VacInsert(k(a), v(b), o(c)),
        Op::VacIntoKey(a) => Op::VacIntoKey(k(a)),
        Op::EntryDrop(a) => Op::EntryDrop(k(a)),
        Op::Clear => Op::Clear,
        Op::Bulk(xs) => Op::Bulk(xs.iter().map(|(a, b)| (k(a), v(b))).collect()),
        Op::AppendDeep(a, x) => Op::AppendDeep(k(a), *x),
    }
}

type Plain = Op<u16, u32>;

pub fn tracked_op(op: &Plain) -> Op<TK, TV> {
    map_op(op, |k| TK::new(*k), |v| TV::new(*v))
}

/// The dictionary, where a key's only prefix is itself.
pub fn plain_model(m: &mut BTreeMap<u16, u32>, op: &Plain) -> Ret<u16, u32> {
    if let Op::ModMax(p, w) = op {
        let k = u16::from_be_bytes([p[0], p[1]]);
        let mut r = model(m, &Op::Modify(k, *w));
        if r.tag == hist::SOME {
            r.key = Some(k);
        }
        return r;
    }
    model(m, op)
}

pub fn small_shape(ctx: &Ctx, r: &mut Rng) -> Shape {
    if ctx.small {
        let pool = r.range(1, 7);
        return Shape { pool, ops: r.range(3, 14), exotic: *r.pick(&[3usize, 6, 9]) };
    }
    let pool = match r.below(8) {
        0..=4 => r.range(1, 12),
        5 | 6 => r.range(8, 40),
        _ => r.range(40, 200),
    };
    Shape { pool, ops: r.range(4, 60).max(pool), exotic: *r.pick(&[3usize, 6, 9]) }
}

pub fn plain_history(ctx: &Ctx, r: &mut Rng) -> (Vec<u16>, Vec<Plain>) {
    let sh = small_shape(ctx, r);
    let (keys, mut ops) = history::<u16, u32>(r, sh);
    for op in ops.iter_mut() {
        if let Op::GetMut(k, w) = op {
            if r.chance(1, 2) {
                *op = Op::ModMax(k.to_be_bytes().to_vec(), *w);
            }
        }
    }
    (keys, ops)
}

// ---------------------------------------------------------------- ledger

/// Queries that must neither keep nor drop anything.
pub fn queries(t: &RbTree<TK, TV>, map: Option<&Map<TK, TV>>, m: &BTreeMap<u16, u32>, r: &mut Rng, keys: &[u16]) -> R {
    let before = track::live();
    {
        for (i, (k, v)) in RbTreeIterator::new(t).enumerate() {
            if i > 2 + m.len() / 2 {
                break;
            }
            ensure!(m.get(&k.get()) == Some(&v.get()), "iteration shows {} => {}, should be {:?}", k.get(), v.get(), m.get(&k.get()));
        }
        let kind = r.below(9);
        let plain: Ask<u16> = gen_ask(r, keys, kind);
        let k = |x: &u16| TK::new(*x);
        let ask: Ask<TK> = match &plain {
            Ask::Key(a) => Ask::Key(k(a)),
            Ask::KeyBorrowed(a) => Ask::KeyBorrowed(k(a)),
            Ask::Nested(a) => Ask::Nested(k(a)),
            Ask::Keys => Ask::Keys,
            Ask::KeyRange(a, b) => Ask::KeyRange(k(a), k(b)),
            Ask::KeyRangeBorrowed(a, b) => Ask::KeyRangeBorrowed(k(a), k(b)),
            Ask::ValueRange(a, b) => Ask::ValueRange(k(a), k(b)),
            Ask::ValueRangeBorrowed(a, b) => Ask::ValueRangeBorrowed(k(a), k(b)),
            Ask::Prefix(p) => Ask::Prefix(p.clone()),
        };
        let w = ask_tree(t, &ask);
        ensure!(w.reconstruct() == t.root_hash(), "the witness for {:?} does not hash to the root hash", plain);
        if let Some(map) = map {
            let bytes = serde_cbor::to_vec(map).expect("encodes");
            std::hint::black_box(&bytes);
            std::hint::black_box(format!("{:?}", map));
        }
    }
    let after = track::live();
    ensure!(before == after, "queries changed what is alive from {:?} to {:?}", before, after);
    Ok(())
}

fn ledger_on<S: Subject<TK, TV>>(ctx: &mut Ctx, r: &mut Rng) -> R {
    let (keys, ops) = plain_history(ctx, r);
    let qseed = r.u64();
    let ask = r.chance(2, 3);
    ctx.sample(|| format!("{} of tracked keys and values: {} operations over {} keys, starting {:?}", S::NAME, ops.len(), keys.len(), &ops[..ops.len().min(4)]));
    run_shrunk(ops, &format!("tracked {}", S::NAME), |ops| {
        let mut q = Rng::new(qseed);
        balanced("a whole history", || {
            track::reset();
            let mut s = S::new();
            let mut m = BTreeMap::new();
            for (i, op) in ops.iter().enumerate() {
                let got = s.apply(tracked_op(op));
                let want = plain_model(&mut m, op);
                let same = got.tag == want.tag
                    && got.key.as_ref().map(|x| x.get()) == want.key
                    && got.a.as_ref().map(|x| x.get()) == want.a
                    && got.b.as_ref().map(|x| x.get()) == want.b;
                ensure!(same, "step {} {:?} returned {:?}, should return {:?}", i, op, got, want);
                drop(got);
                no_errors()?;
                let n = m.len() as isize;
                let l = track::live();
                ensure!(l == (n, n), "after step {} {:?}, {} keys and {} values are alive, the collection holds {}", i, op, l.0, l.1, n);
                if ask && q.chance(1, 4) {
                    queries(s.tree(), s.as_map(), &m, &mut q, &keys)?;
                    no_errors()?;
                }
                quiet(|| {
                    ctx.count("operations on tracked maps and trees", 1);
                    ctx.count(op.kind(), 1);
                    let mut sg = Sig::new();
                    sg.add(op.kind().as_bytes());
                    for k in m.keys() {
                        sg.num(*k as u64);
                    }
                    if m.len() >= 2 {
                        ctx.seen(sg.0)
                    } else {
                        ctx.trivial()
                    }
                });
            }
            drop(s);
            none_alive("after the collection was dropped")?;
            quiet(|| ctx.count("tracked instances made", track::made() as u64));
            Ok(())
        })
    })
}

// ---------------------------------------------------------------- sequences

#[derive(Clone, Debug)]
enum SOp {
    Append(u32),
    Extend(Vec<u32>, bool),
    Clear,
    Clone,
    CloneSwap,
    Vec,
    FromSlice(bool),
    Collect,
    Cbor,
    Candid,
    Spare(u8, usize),
    Bad(usize),
}

fn seqs(ctx: &mut Ctx, r: &mut Rng) -> R {
    let n = if ctx.small { r.range(2, 8) } else { r.range(2, 30) };
    let mut ops = vec![];
    for _ in 0..n {
        let list: Vec<u32> = (0..r.below(5)).map(|_| r.u64() as u32).collect();
        ops.push(match r.below(16) {
            0..=3 => SOp::Append(r.u64() as u32),
            4 | 5 => SOp::Extend(list, r.chance(1, 2)),
            6 => SOp::Clear,
            7 => SOp::Clone,
            8 => SOp::CloneSwap,
            9 => SOp::Vec,
            10 => SOp::FromSlice(r.chance(1, 2)),
            11 => SOp::Collect,
            12 => SOp::Cbor,
            13 => SOp::Candid,
            14 => SOp::Bad(r.below(20)),
            _ => SOp::Spare(r.below(3) as u8, r.below(20)),
        });
    }
    run_shrunk(ops, "tracked Seq", |ops| {
        balanced("a whole history of a sequence", || {
            track::reset();
            let mut s: Seq<TV> = Seq::new();
            let mut m: Vec<u32> = vec![];
            for (i, op) in ops.iter().enumerate() {
                match op {
                    SOp::Append(x) => {
                        s.append(TV::new(*x));
                        m.push(*x);
                    }
                    SOp::Extend(xs, odd) => {
                        if *odd {
                            s.extend(xs.iter().map(|x| TV::new(*x)).filter(|_| true))
                        } else {
                            s.extend(xs.iter().map(|x| TV::new(*x)).collect::<Vec<_>>())
                        }
                        m.extend(xs);
                    }
                    SOp::Clear => {
                        s.clear();
                        m.clear();
                        none_alive("after clear")?;
                    }
                    SOp::Clone => {
                        let c = s.clone();
                        ensure!(track::live().1 == 2 * m.len() as isize, "a clone of {} items leaves {} values alive", m.len(), track::live().1);
                        drop(c);
                    }
                    SOp::CloneSwap => s = s.clone(),
                    SOp::Vec => {
                        let v: Vec<TV> = s.into();
                        s = v.into();
                    }
                    SOp::FromSlice(mu) => {
                        let mut v: Vec<TV> = s.into();
                        s = if *mu { Seq::from(&mut v[..]) } else { Seq::from(&v[..]) };
                    }
                    SOp::Collect => {
                        let v: Vec<TV> = s.into();
                        s = v.into_iter().collect();
                    }
                    SOp::Cbor => {
                        let b = serde_cbor::to_vec(&s).expect("encodes");
                        s = serde_cbor::from_slice(&b).map_err(|e| Fail(format!("its own encoding does not decode: {}", e)))?;
                    }
                    SOp::Candid => {
                        let b = candid::encode_one(&s).expect("encodes");
                        s = candid::decode_one(&b).map_err(|e| Fail(format!("its own encoding does not decode: {}", e)))?;
                    }
                    SOp::Spare(k, n) => match k {
                        0 => s.reserve(*n),
                        1 => s.reserve_exact(*n),
                        _ => s.shrink_to_fit(),
                    },
                    SOp::Bad(cut) => {
                        let b = serde_cbor::to_vec(&s).expect("encodes");
                        let b = &b[..(*cut).min(b.len() - 1)];
                        let got = serde_cbor::from_slice::<Seq<TV>>(b);
                        ensure!(got.is_err(), "a truncated encoding decodes");
                    }
                }
                no_errors()?;
                let live = track::live();
                ensure!(live == (0, m.len() as isize), "after step {} {:?}, {} values are alive, the sequence holds {}", i, op, live.1, m.len());
                ensure!(s.iter().map(|x| x.get()).eq(m.iter().copied()), "after step {} {:?}, the items are not {:?}", i, op, m);
                quiet(|| {
                    ctx.count("operations on tracked sequences", 1);
                    let mut sg = Sig::new();
                    sg.num(m.len() as u64);
                    sg.add(format!("{:?}", op).as_bytes());
                    if m.is_empty() { ctx.trivial() } else { ctx.seen(sg.0) }
                });
            }
            drop(s);
            none_alive("after the sequence was dropped")
        })
    })
}

// ---------------------------------------------------------------- paged, nested, groups

fn paged<const S: usize>(ctx: &mut Ctx, r: &mut Rng) -> R {
    let n = if ctx.small { r.range(2, 9) } else { r.range(2, 80) };
    let nk = r.range(1, 4);
    let ops: Vec<(u16, u32)> = (0..n).map(|_| (r.below(nk) as u16, r.u64() as u32)).collect();
    run_shrunk(ops, "tracked Paged", |ops| {
        balanced("a whole history of a paged collection", || {
            track::reset();
            let mut p: Paged<TK, TV, S> = Paged::new();
            let mut m: BTreeMap<u16, Vec<u32>> = BTreeMap::new();
            for (i, (k, v)) in ops.iter().enumerate() {
                p.insert(TK::new(*k), TV::new(*v));
                m.entry(*k).or_default().push(*v);
                no_errors()?;
                let pages: usize = m.values().map(|x| (x.len() + S - 1) / S).sum();
                let want = (pages as isize, (i + 1) as isize);
                ensure!(track::live() == want, "after inserting {} items, (keys, values) {:?} are alive, should be {:?}", i + 1, track::live(), want);
                if i % 5 == 1 {
                    let k = TK::new(*k);
                    let a = p.witness_last_page_number(&k);
                    let b = p.witness(&k, 0);
                    let q = p.get(&k, 0).map(|s| s.len());
                    ensure!(q.is_some() && a.reconstruct() == p.root_hash() && b.reconstruct() == p.root_hash(), "queries disagree");
                    drop((a, b));
                    drop(k);
                    ensure!(track::live() == want, "queries changed what is alive");
                }
                if i % 11 == 7 {
                    let b = serde_cbor::to_vec(&p).expect("encodes");
                    if i % 2 == 0 {
                        p = serde_cbor::from_slice(&b).map_err(|e| Fail(format!("its own encoding does not decode: {}", e)))?;
                    } else {
                        let bad = serde_cbor::from_slice::<Paged<TK, TV, S>>(&b[..b.len() - 1]);
                        ensure!(bad.is_err(), "a truncated encoding decodes");
                    }
                    ensure!(track::live() == want, "decoding left {:?} alive, should be {:?}", track::live(), want);
                }
                quiet(|| {
                    ctx.count("operations on tracked paged collections", 1);
                    let mut sg = Sig::new();
                    sg.num(S as u64);
                    for (k, v) in &m {
                        sg.num(*k as u64);
                        sg.num(v.len() as u64);
                    }
                    ctx.seen(sg.0);
                });
            }
            drop(p);
            none_alive("after the paged collection was dropped")
        })
    })
}

type Deep = Map<TK, Map<TK, Seq<TV>>>;

fn nested(ctx: &mut Ctx, r: &mut Rng) -> R {
    let n = if ctx.small { r.range(2, 10) } else { r.range(2, 60) };
    let ops: Vec<(u8, u16, u16, u32)> = (0..n).map(|_| (r.below(12) as u8, r.below(4) as u16, r.below(4) as u16, r.u64() as u32)).collect();
    run_shrunk(ops, "tracked Map of maps of sequences", |ops| {
        balanced("a whole nested history", || {
            track::reset();
            let mut d: Deep = Map::new();
            let mut m: BTreeMap<u16, BTreeMap<u16, Vec<u32>>> = BTreeMap::new();
            for (i, &(op, a, b, x)) in ops.iter().enumerate() {
                match op {
                    0..=3 => {
                        d.entry(TK::new(a)).or_insert_with(Map::new).append_deep(TK::new(b), TV::new(x));
                        m.entry(a).or_default().entry(b).or_default().push(x);
                    }
                    4 => {
                        let got = d.remove(&a);
                        let want = m.remove(&a);
                        ensure!(got.map(|g| g.len()) == want.map(|w| w.len()), "the removed map has another length");
                    }
                    5 => {
                        let got = d.get_mut(&a).and_then(|x| x.remove_entry(&b));
                        let want = m.get_mut(&a).and_then(|x| x.remove(&b));
                        ensure!(got.map(|g| (g.0.get(), g.1.len())) == want.map(|w| (b, w.len())), "the removed sequence has another length");
                    }
                    6 => {
                        if let Some(q) = d.get_mut(&a) {
                            q.clear();
                        }
                        if let Some(q) = m.get_mut(&a) {
                            q.clear();
                        }
                    }
                    7 => {
                        d.insert(TK::new(a), Map::new());
                        m.insert(a, BTreeMap::new());
                    }
                    8 => {
                        let s: Seq<TV> = (0..3).map(|_| TV::new(x)).collect();
                        d.entry(TK::new(a)).or_insert_with(Map::new).insert(TK::new(b), s);
                        m.entry(a).or_default().insert(b, vec![x; 3]);
                    }
                    9 => {
                        let bytes = serde_cbor::to_vec(&d).expect("encodes");
                        d = serde_cbor::from_slice(&bytes).map_err(|e| Fail(format!("its own encoding does not decode: {}", e)))?;
                    }
                    10 => {
                        let w = d.as_tree().nested_witness(&a, |q| q.as_tree().nested_witness(&b, |s| s.as_hash_tree()));
                        ensure!(w.reconstruct() == d.root_hash(), "a nested witness does not hash to the root hash");
                    }
                    _ => {
                        let bytes = candid::encode_one(&d).expect("encodes");
                        let e: Deep = candid::decode_one(&bytes).map_err(|e| Fail(format!("its own encoding does not decode: {}", e)))?;
                        let old = std::mem::replace(&mut d, e);
                        drop(old);
                    }
                }
                no_errors()?;
                let keys = m.len() + m.values().map(|q| q.len()).sum::<usize>();
                let vals = m.values().flat_map(|q| q.values()).map(|s| s.len()).sum::<usize>();
                let want = (keys as isize, vals as isize);
                ensure!(track::live() == want, "after step {} {:?}, (keys, values) {:?} are alive, should be {:?}", i, ops[i], track::live(), want);
                quiet(|| {
                    ctx.count("operations on tracked nested collections", 1);
                    let mut sg = Sig::new();
                    sg.num(op as u64);
                    sg.add(format!("{:?}", m.iter().map(|(k, v)| (*k, v.iter().map(|(k, v)| (*k, v.len())).collect::<Vec<_>>())).collect::<Vec<_>>()).as_bytes());
                    if keys > 1 { ctx.seen(sg.0) } else { ctx.trivial() }
                });
            }
            drop(d);
            none_alive("after the nested collection was dropped")
        })
    })
}

/// A leaf of a group.
pub struct Leaf<const N: usize>(pub Map<TK, TV>);
impl<const N: usize> AsHashTree for Leaf<N> {
    fn root_hash(&self) -> [u8; 32] {
        self.0.root_hash()
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.0.as_hash_tree()
    }
}

fn grow<const N: usize>(g: &mut Group, r: &mut Rng, n: &mut isize) -> R {
    let k = r.below(5) as u16;
    let m = g.get_mut::<Leaf<N>>();
    if r.chance(3, 4) {
        if m.0.insert(TK::new(k), TV::new(r.u64() as u32)).is_none() {
            *n += 1;
        }
    } else if m.0.remove(&k).is_some() {
        *n -= 1;
    }
    Ok(())
}

fn groups(ctx: &mut Ctx, r: &mut Rng) -> R {
    let seed = r.u64();
    balanced("boxed leaves", || crate::group::downcasts(&mut Rng::new(seed)))?;
    ctx.count("boxed leaves cast", 1);
    balanced("the life of a group", || {
        let mut r = Rng::new(seed);
        let r = &mut r;
        track::reset();
        let n = r.range(1, 4);
        let mut names: Vec<Vec<String>> = (0..n).map(|i| vec![format!("d{}", r.below(2)), format!("n{}", i)]).collect();
        r.shuffle(&mut names);
        let mut live = 0isize;
        let mut filled = || -> Map<TK, TV> {
            let xs: Vec<(TK, TV)> = (0..r.below(4)).map(|i| (TK::new(i as u16), TV::new(i as u32))).collect();
            live += xs.len() as isize;
            xs.into_iter().collect()
        };
        let mut b = GroupBuilder::new();
        b = b.insert(names[0].clone(), Leaf::<0>(filled()));
        if n > 1 {
            b = b.insert(names[1].clone(), Leaf::<1>(filled()));
        }
        if n > 2 {
            b = b.insert(names[2].clone(), Leaf::<2>(filled()));
        }
        if n > 3 {
            b = b.insert(names[3].clone(), Leaf::<3>(filled()));
        }
        if r.chance(1, 8) {
            drop(b);
            return none_alive("after a group builder was dropped");
        }
        let mut g = b.build();
        for _ in 0..r.range(1, 12) {
            match r.below(6) {
                0 if n > 1 => grow::<1>(&mut g, r, &mut live)?,
                1 if n > 2 => grow::<2>(&mut g, r, &mut live)?,
                2 if n > 3 => grow::<3>(&mut g, r, &mut live)?,
                3 => {
                    // Several witnesses and references at once.
                    let a = g.get::<Leaf<0>>();
                    let x = a.0.iter().next();
                    let w1 = g.witness().full::<Leaf<0>>().build();
                    let mut ray = g.witness().partial::<Leaf<0>, _>(|l| l.0.witness(&1u16));
                    if n > 1 {
                        ray = ray.full::<Leaf<1>>();
                    }
                    let w2 = ray.build();
                    let dropped = g.witness().full::<Leaf<0>>();
                    ensure!(w1.reconstruct() == g.root_hash() && w2.reconstruct() == g.root_hash(), "group witnesses do not hash to the root hash");
                    drop(dropped);
                    if let Some((k, v)) = x {
                        std::hint::black_box((k.get(), v.get()));
                    }
                }
                _ => grow::<0>(&mut g, r, &mut live)?,
            }
            no_errors()?;
            ensure!(track::live() == (live, live), "(keys, values) {:?} are alive, the group holds {}", track::live(), live);
            quiet(|| {
                ctx.count("operations on tracked groups", 1);
                let mut sg = Sig::new();
                sg.num(n as u64);
                sg.num(live as u64);
                sg.add(&g.root_hash());
                ctx.seen(sg.0)
            });
        }
        drop(g);
        none_alive("after the group was dropped")
    })
}

// ---------------------------------------------------------------- decoding

/// Decoding valid, damaged and random bytes drops what it made.
fn decoding(ctx: &mut Ctx, r: &mut Rng) -> R {
    let seed = r.u64();
    let what = format!("decoding {:x}", seed);
    balanced(&what, || {
        let mut r = Rng::new(seed);
        let r = &mut r;
        track::reset();
        let n = r.below(8);
        let m: BTreeMap<u16, u32> = (0..n).map(|_| (r.below(300) as u16, r.u64() as u32)).collect();
        let paged = r.chance(1, 4);
        let cbor = r.chance(2, 3);
        let mut bytes = if paged {
            let mut p: Paged<u16, u32, 2> = Paged::new();
            for (k, v) in &m {
                p.insert(*k % 3, *v);
            }
            if cbor { serde_cbor::to_vec(&p).unwrap() } else { candid::encode_one(&p).unwrap() }
        } else {
            let t: Map<u16, u32> = m.clone().into_iter().collect();
            if cbor { serde_cbor::to_vec(&t).unwrap() } else { candid::encode_one(&t).unwrap() }
        };
        let harm = r.below(4);
        match harm {
            1 => {
                let at = r.below(bytes.len());
                bytes.truncate(at)
            }
            2 => {
                for _ in 0..r.range(1, 3) {
                    let at = r.below(bytes.len());
                    bytes[at] = r.u64() as u8;
                }
            }
            3 if cbor => {
                let at = r.below(bytes.len());
                bytes.insert(at, *r.pick(&[0u8, 1, 0x19, 0xff, 0x60, 0x80, 0xa0, 0xbf]));
            }
            _ => {}
        }
        let big = !cbor && harm != 0;
        let ok = if big {
            // A damaged Candid header may ask for much memory: not our subject.
            false
        } else if paged {
            let got: Option<Paged<TK, TV, 2>> = if cbor { serde_cbor::from_slice(&bytes).ok() } else { candid::decode_one(&bytes).ok() };
            if let Some(mut p) = got {
                std::hint::black_box(p.root_hash());
                p.insert(TK::new(1), TV::new(1));
                std::hint::black_box(p.as_hash_tree());
                true
            } else {
                false
            }
        } else {
            let got: Option<Map<TK, TV>> = if cbor { serde_cbor::from_slice(&bytes).ok() } else { candid::decode_one(&bytes).ok() };
            if let Some(mut p) = got {
                let n = p.len() as isize;
                ensure!(track::live() == (n, n), "a decoded map of {} entries leaves {:?} alive", n, track::live());
                std::hint::black_box(p.root_hash());
                p.insert(TK::new(1), TV::new(1));
                p.remove(&2u16);
                true
            } else {
                false
            }
        };
        ensure!(ok || harm != 0, "a valid encoding does not decode");
        none_alive("after decoding")?;
        quiet(|| {
            ctx.count(if ok { "decodings that succeed" } else { "decodings that fail" }, 1);
            let mut sg = Sig::new();
            sg.add(&bytes);
            ctx.seen(sg.0);
        });
        Ok(())
    })
}

// ---------------------------------------------------------------- held references

/// References, iterators and witnesses held together over work that refreshes
/// the collection, then mutable access in every form, used after the call.
fn held<K: Key, V: Val>(ctx: &mut Ctx, r: &mut Rng) -> R {
    let sh = small_shape(ctx, r);
    let seed = r.u64();
    let what = format!("held references in {}", crate::mapchk::describe::<K, V>("Map"));
    balanced(&what, || {
        let mut r = Rng::new(seed);
        let r = &mut r;
        let (keys, ops) = history::<K, V>(r, sh);
        let mut s: Map<K, V> = Map::new();
        let mut m: BTreeMap<K, V> = BTreeMap::new();
        for op in &ops {
            s.apply(op.clone());
            model(&mut m, op);
        }
        for round in 0..2 {
            // Leave cached hashes behind the contents.
            let stale: Vec<K> = m.keys().filter(|_| r.chance(1, 2)).cloned().collect();
            for k in &stale {
                let w = V::gen(r);
                *s.get_mut(k).unwrap() = w.clone();
                m.insert(k.clone(), w);
            }
            {
                let gets: Vec<(&K, Option<&V>)> = keys.iter().map(|k| (k, s.get(k))).collect();
                let mut it = s.iter();
                let mut prefix: Vec<(&K, &V)> = vec![];
                for _ in 0..r.below(4) {
                    prefix.extend(it.next());
                }
                let mut seen: Vec<(&K, &V)> = vec![];
                let mut asks = vec![];
                for _ in 0..3 {
                    let kind = r.below(9);
                    asks.push(gen_ask::<K>(r, &keys, kind));
                }
                // The first one refreshes the whole tree, behind the references.
                let ws: Vec<HashTree> = asks.iter().map(|a| ask_map(&s, a)).collect();
                let root = s.root_hash();
                let full = s.as_hash_tree();
                {
                    let ptrs = std::cell::RefCell::new(vec![]);
                    s.as_tree().for_each(|k, v| ptrs.borrow_mut().push((k as *const K, v as *const V)));
                    // for_each hands them out for as long as the map is borrowed.
                    seen.extend(ptrs.into_inner().into_iter().map(|(k, v)| unsafe { (&*k, &*v) }));
                }
                let more: Vec<HashTree> = asks.iter().map(|a| ask_tree(s.as_tree(), a)).collect();
                for (k, v) in &gets {
                    ensure!(*v == m.get(k), "a reference taken before hashing shows {:?} for {:?}, should be {:?}", v, k, m.get(k));
                }
                prefix.extend(it);
                ensure!(prefix.iter().copied().eq(m.iter()), "an iterator held over hashing shows other entries");
                ensure!(seen.iter().copied().eq(m.iter()), "for_each shows other entries");
                for (a, w) in asks.iter().zip(&ws).chain(asks.iter().zip(&more)) {
                    ensure!(w.reconstruct() == root, "the held witness for {:?} does not hash to the root", a);
                }
                ensure!(full.reconstruct() == root, "the held full tree does not hash to the root");
                quiet(|| ctx.count("references, iterators and witnesses held over hashing", (gets.len() + ws.len() * 2 + 3) as u64));
            }
            // Mutable access, used after further reads through the same handle.
            for _ in 0..r.range(1, 5) {
                let k = r.pick(&keys).clone();
                let (w1, w2) = (V::gen(r), V::gen(r));
                match r.below(5) {
                    0 => match s.entry(k.clone()) {
                        Entry::Occupied(mut o) => {
                            let was = o.get().clone();
                            ensure!(Some(&was) == m.get(&k), "the entry shows another value");
                            *o.get_mut() = w1;
                            std::hint::black_box(format!("{:?}", o.get()));
                            std::hint::black_box(o.key());
                            let q = o.get_mut();
                            *q = w2.clone();
                            let q = o.into_mut();
                            ensure!(*q == w2, "the entry lost a write");
                            *q = was.clone();
                            m.insert(k, was);
                        }
                        Entry::Vacant(v) => {
                            let q = v.insert(w1);
                            *q = w2.clone();
                            m.insert(k, w2);
                        }
                    },
                    1 => {
                        let q = s.entry(k.clone()).and_modify(|x| *x = w1.clone()).or_insert(w2.clone());
                        let shown = q.clone();
                        *q = w1.clone();
                        ensure!(shown == if m.contains_key(&k) { w1.clone() } else { w2 }, "and_modify/or_insert gave another value");
                        m.insert(k, w1);
                    }
                    2 => {
                        if let Some(q) = s.get_mut(&k) {
                            *q = w1.clone();
                            let q2 = &mut *q;
                            *q2 = w2.clone();
                            std::hint::black_box(q.root_hash());
                            m.insert(k, w2);
                        }
                    }
                    3 => {
                        let e = s.entry(k.clone());
                        std::hint::black_box(format!("{:?}", e));
                        drop(e);
                    }
                    _ => {
                        if let Some((k2, v2)) = s.remove_entry(&k) {
                            ensure!(s.get(&k).is_none() && k2 == k && Some(&v2) == m.get(&k), "remove_entry returned another entry");
                            m.remove(&k);
                        }
                    }
                }
            }
            let t = s.as_hash_tree();
            ensure!(t.reconstruct() == s.root_hash() && s.iter().eq(m.iter()), "round {} ends in another state", round);
        }
        // The tree's own routes.
        let mut t: RbTree<K, V> = RbTree::new();
        for (k, v) in &m {
            let (old, q) = t.insert(k.clone(), v.clone());
            ensure!(old.is_none(), "a fresh key was there");
            *q = v.clone();
        }
        for k in keys.iter().take(6) {
            let w = V::gen(r);
            let q = t.modify(k, |v| v);
            ensure!(q.is_some() == m.contains_key(k), "modify finds another set of keys");
            if let Some(q) = q {
                *q = w.clone();
                m.insert(k.clone(), w);
            }
        }
        ensure!(RbTreeIterator::new(&t).eq(m.iter()), "the tree ends in another state");
        let h = t.as_hash_tree().reconstruct();
        ensure!(t.root_hash() == h, "the tree's root hash is not its tree's");
        quiet(|| {
            let mut sg = Sig::new();
            sg.add(K::NAME.as_bytes());
            sg.add(&h);
            ctx.count("rounds of held references", 2);
            if m.len() > 1 { ctx.seen(sg.0) } else { ctx.trivial() }
        });
        Ok(())
    })
}

/// Whole histories of every kind of key and value balance the allocator.
fn balance<K: Key, V: Val>(ctx: &mut Ctx, r: &mut Rng) -> R {
    let mut sh = small_shape(ctx, r);
    if ctx.tier == Tier::Thorough && !ctx.small && r.chance(1, 10) {
        sh.pool = r.range(200, 2000);
        sh.ops = sh.pool * 2;
    }
    let (_, ops) = history::<K, V>(r, sh);
    let on_map = r.chance(1, 2);
    let upto = r.range(0, ops.len());
    let what = crate::mapchk::describe::<K, V>(if on_map { "Map" } else { "RbTree" });
    run_shrunk(ops, &what, |ops| {
        let mut n = 0;
        let mut root = [0; 32];
        balanced("a whole history", || {
            fn run<K: Key, V: Val, S: Subject<K, V>>(ops: &[Op<K, V>], upto: usize, n: &mut usize, root: &mut [u8; 32]) {
                let mut s = S::new();
                for (i, op) in ops.iter().enumerate() {
                    s.apply(op.clone());
                    if i == upto {
                        *root = s.root();
                    }
                }
                *n = s.tree().len();
            }
            if on_map {
                run::<K, V, Map<K, V>>(ops, upto, &mut n, &mut root)
            } else {
                run::<K, V, RbTree<K, V>>(ops, upto, &mut n, &mut root)
            }
            Ok(())
        })?;
        ctx.count("whole histories that balance the allocator", 1);
        ctx.count("operations in them", ops.len() as u64);
        let mut sg = Sig::new();
        sg.add(K::NAME.as_bytes());
        sg.num(n as u64);
        sg.add(&root);
        if n > 1 { ctx.seen(sg.0) } else { ctx.trivial() }
        Ok(())
    })
}

pub fn c11(ctx: &mut Ctx, r: &mut Rng) -> R {
    let kind = r.below(crate::kinds::KINDS);
    match r.below(16) {
        0..=2 => ledger_on::<Map<TK, TV>>(ctx, r),
        3..=5 => ledger_on::<RbTree<TK, TV>>(ctx, r),
        6 => seqs(ctx, r),
        7 => match r.below(3) {
            0 => paged::<1>(ctx, r),
            1 => paged::<2>(ctx, r),
            _ => paged::<3>(ctx, r),
        },
        8 => nested(ctx, r),
        9 => groups(ctx, r),
        10 => decoding(ctx, r),
        11..=13 => with_kind!(kind, held(ctx, r)),
        _ => with_kind!(kind, balance(ctx, r)),
    }
}
