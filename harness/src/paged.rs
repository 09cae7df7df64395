//! C13 (layout of paged collections), and paged collections as subjects of
//! C02-C06.

use crate::ensure;
use crate::hist::run_shrunk;
use crate::kinds::{pool, Comp, Key, Val};
use crate::mapchk::{committed, judge, Judge};
use crate::report::{Ctx, Fail, Tier, R};
use crate::seqc::chain;
use crate::tree::T;
use crate::util::{Rng, Sig};
use crate::wit::{Req, Shows, View};
use certified_vars::{AsHashTree, HashTree, Paged, Seq};
use std::collections::BTreeMap;

/// What the caller inserted, per key.
pub type Model<K, V> = BTreeMap<K, Vec<V>>;

/// The pages, by the documented layout.
pub fn pages<'a, V>(items: &'a [V], size: usize) -> Vec<&'a [V]> {
    items.chunks(size).collect()
}

pub fn page_tree<V: Val>(items: &[V]) -> T {
    T::Pruned(chain(items.iter().map(|x| x.t().hash())))
}

pub fn label<K: Key>(k: &K, page: u32) -> Vec<u8> {
    let mut l = k.bytes();
    l.extend_from_slice(&page.to_be_bytes());
    l
}

pub fn view<K: Key, V: Val>(m: &Model<K, V>, size: usize) -> View {
    let mut v = View { labels: vec![], vals: vec![], byte_ordered: K::BYTE_ORDERED && K::FIXED };
    for (k, items) in m {
        for (i, p) in pages(items, size).into_iter().enumerate() {
            v.labels.push(label(k, i as u32));
            v.vals.push(page_tree(p));
        }
    }
    v
}

/// Number of pages of the keys before `k`.
fn offset<K: Key, V: Val>(m: &Model<K, V>, size: usize, k: &K) -> usize {
    m.range(..k.clone()).map(|(_, x)| pages(x, size).len()).sum()
}

fn count<K: Key, V: Val>(m: &Model<K, V>, size: usize, k: &K) -> usize {
    m.get(k).map_or(0, |x| pages(x, size).len())
}

fn page_req<K: Key, V: Val>(m: &Model<K, V>, size: usize, k: &K, page: u64) -> Req {
    let n = count(m, size, k) as u64;
    let at = offset(m, size, k) + page.min(n) as usize;
    if page < n {
        Req::Present { at, shows: Shows::Value }
    } else {
        Req::Absent { at, label: label(k, page.min(u32::MAX as u64) as u32) }
    }
}

/// Page numbers worth asking for.
fn some_page(r: &mut Rng, n: usize) -> u64 {
    let n = n as u64;
    match r.below(9) {
        0 | 1 => n,
        2 => n + 1,
        3 if n > 0 => n - 1,
        4 => {
            // Truncation to any narrower width would find a page.
            let base = *r.pick(&[1u64 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 40, 1 << 63]);
            let x = base + r.below(n as usize + 1) as u64;
            if x > usize::MAX as u64 {
                n
            } else {
                x
            }
        }
        5 => usize::MAX as u64,
        6 => u32::MAX as u64,
        _ => r.below(n as usize + 1) as u64,
    }
}

fn last_req<K: Key, V: Val>(m: &Model<K, V>, size: usize, k: &K) -> Req {
    page_req(m, size, k, count(m, size, k) as u64)
}

pub fn layout<K: Key, V: Val, const S: usize>(ctx: &mut Ctx, p: &Paged<K, V, S>, m: &Model<K, V>, k: &K, all: bool, r: &mut Rng) -> R {
    let none = vec![];
    let items = m.get(k).unwrap_or(&none);
    let want = pages(items, S);
    let last = p.get_last_page_number(k);
    let n = want.len();
    ensure!(last == n.checked_sub(1), "the last page number of {:?} is {:?}, with {} items and page size {}", k, last, items.len(), S);
    let one = |i: usize| -> R {
        let Some(s) = p.get(k, i) else { crate::fail!("page {} of {:?} is missing, with {} items and page size {}", i, k, items.len(), S) };
        ensure!(&s.as_vec()[..] == want[i], "page {} of {:?} holds {:?}, should hold {:?}", i, k, s.as_vec(), want[i]);
        ensure!(s.root_hash() == page_tree(want[i]).hash(), "page {} of {:?} has a root hash that is not the chain hash of its items", i, k);
        Ok(())
    };
    if all {
        for i in 0..n {
            one(i)?;
        }
    } else if n > 0 {
        one(n - 1)?;
        one(r.below(n))?;
    }
    for _ in 0..3 {
        let x = some_page(r, n);
        if x >= n as u64 {
            let got = p.get(k, x as usize);
            ensure!(got.is_none(), "page {} of {:?} is {:?}, but there are only {} pages", x, k, got, n);
            ctx.count("absent pages looked up", 1);
        }
    }
    ctx.count("layouts compared", 1);
    ctx.max("pages of a key", n as u64);
    Ok(())
}

fn keys_with_neighbours<K: Key>(r: &mut Rng, n: usize) -> Vec<K> {
    pool(r, n)
}

pub fn insertions<K: Key, V: Val>(ctx: &Ctx, r: &mut Rng, keys: &[K], size: usize) -> Vec<(usize, V)> {
    let cap = if ctx.small { 12 } else { 400 };
    let n = match r.below(4) {
        0 => r.range(1, cap.min(20)),
        1 => r.range(1, (size * 3 + 2).min(cap)),
        2 => r.range(1, (size * keys.len() * 2 + 2).min(cap)),
        _ => r.range(1, cap),
    };
    let style = r.below(4);
    let mut at = r.below(keys.len());
    (0..n)
        .map(|i| {
            match style {
                0 => at = i % keys.len(),
                1 => at = r.below(keys.len()),
                2 => {
                    if r.chance(1, size.min(20) + 1) {
                        at = r.below(keys.len())
                    }
                }
                _ => {
                    if r.chance(1, 4) {
                        at = r.below(keys.len())
                    } else {
                        at = keys.len() / 2
                    }
                }
            }
            (at, V::gen(r))
        })
        .collect()
}

pub fn ask<'a, K: Key, V: Val, const S: usize>(p: &'a Paged<K, V, S>, m: &Model<K, V>, r: &mut Rng, keys: &[K]) -> (String, Req, HashTree<'a>) {
    let k = if r.chance(1, 8) {
        let st = r.below(60) as u32;
        let i = r.below(1000);
        K::gen(r, st, i)
    } else {
        r.pick(keys).clone()
    };
    if r.chance(2, 5) {
        (format!("last page of {:?}", k), last_req(m, S, &k), p.witness_last_page_number(&k))
    } else {
        let page = some_page(r, count(m, S, &k));
        (format!("page {} of {:?}", page, k), page_req(m, S, &k, page), p.witness(&k, page as usize))
    }
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Layout,
    Root,
    Witness(Judge),
}

fn run<K: Key, V: Val, const S: usize>(ctx: &mut Ctx, r: &mut Rng, what: What) -> R {
    let nk = r.range(1, if ctx.small { 4 } else { 9 });
    let keys: Vec<K> = keys_with_neighbours(r, nk);
    let ops: Vec<(usize, V)> = insertions(ctx, r, &keys, S);
    let name = format!("Paged<{}, {}, {}> with keys {:?}", K::NAME, V::NAME, S, keys);
    ctx.sample(|| format!("{}: {} insertions, under keys {:?} ...", name, ops.len(), ops.iter().take(20).map(|x| x.0).collect::<Vec<_>>()));
    let qs = r.u64();
    run_shrunk(ops, &name, |ops| {
        let mut q = Rng::new(qs);
        let mut p = if q.chance(1, 2) { Paged::<K, V, S>::new() } else { Paged::default() };
        let mut m: Model<K, V> = BTreeMap::new();
        let total = ops.len();
        for (i, (k, v)) in ops.iter().enumerate() {
            if crate::report::late() {
                break;
            }
            let k = &keys[*k];
            p.insert(k.clone(), v.clone());
            m.entry(k.clone()).or_default().push(v.clone());
            let last = i + 1 == total;
            let often = total <= 30 || last;
            let at = |f: Fail| Fail(format!("after insertion {}: {}", i, f.0));
            match what {
                What::Layout => {
                    layout(ctx, &p, &m, k, often, &mut q).map_err(at)?;
                    let other = q.pick(&keys).clone();
                    layout(ctx, &p, &m, &other, often, &mut q).map_err(at)?;
                    if last {
                        for k in &keys {
                            layout(ctx, &p, &m, k, true, &mut q).map_err(at)?;
                        }
                    }
                    if often || q.chance(1, 40) {
                        let v = view(&m, S);
                        let root = p.root_hash();
                        for _ in 0..if last { 12 } else { 2 } {
                            let (d, rq, w) = ask(&p, &m, &mut q, &keys);
                            // A page proof shows the page or its absence.
                            for j in [Judge::Hash, Judge::KeyProof, Judge::Minimal] {
                                judge(ctx, j, &root, &v, &rq, &w).map_err(|f| Fail(format!("after insertion {}, {}: {}", i, d, f.0)))?;
                            }
                        }
                    }
                    let mut s = Sig::new();
                    s.num(S as u64);
                    for (k, x) in &m {
                        s.add(&k.bytes());
                        s.num(x.len() as u64);
                    }
                    if view_len(&m, S) >= 2 {
                        ctx.seen(s.0);
                    } else {
                        ctx.trivial();
                    }
                }
                What::Root => {
                    if often || q.chance(1, 40) {
                        let v = view(&m, S);
                        committed(ctx, &p.root_hash(), &p.as_hash_tree(), &v).map_err(at)?;
                    }
                }
                What::Witness(j) => {
                    if often || q.chance(1, 40) {
                        let v = view(&m, S);
                        let root = p.root_hash();
                        for _ in 0..if last { 12 } else { 2 } {
                            let (d, rq, w) = ask(&p, &m, &mut q, &keys);
                            judge(ctx, j, &root, &v, &rq, &w).map_err(|f| Fail(format!("after insertion {}, {}: {}", i, d, f.0)))?;
                        }
                    }
                }
            }
        }
        Ok(())
    })
}

fn view_len<K: Key, V: Val>(m: &Model<K, V>, size: usize) -> usize {
    m.values().map(|x| pages(x, size).len()).sum()
}

/// Many pages under one key, with neighbours above and below it.
fn long(ctx: &mut Ctx, r: &mut Rng, n: usize) -> R {
    let mut p = Paged::<u16, u32, 1>::new();
    let mut m: Model<u16, u32> = BTreeMap::new();
    let k = r.range(1, 0xfffe) as u16;
    let keys = [k - 1, k, k + 1];
    for i in 0..n {
        let at = if i % 97 == 5 { r.below(3) } else { 1 };
        let x = r.u64() as u32;
        p.insert(keys[at], x);
        m.entry(keys[at]).or_default().push(x);
        let edge = (i + 1).is_power_of_two() || i % 256 < 2 && i < 2000 || i % 65536 < 2;
        if edge {
            layout(ctx, &p, &m, &keys[at], false, r)?;
        }
    }
    for k in &keys {
        layout(ctx, &p, &m, k, true, r)?;
    }
    let v = view(&m, 1);
    let root = p.root_hash();
    for _ in 0..20 {
        let (d, rq, w) = ask(&p, &m, r, &keys);
        for j in [Judge::Hash, Judge::KeyProof, Judge::Minimal] {
            judge(ctx, j, &root, &v, &rq, &w).map_err(|f| Fail(format!("{} of {} pages: {}", d, v.len(), f.0)))?;
        }
    }
    ctx.count("long page lists", 1);
    Ok(())
}

/// Pages with more items than two bytes count.
fn wide(ctx: &mut Ctx, r: &mut Rng) -> R {
    let mut p = Paged::<u8, u8, 66_000>::new();
    let mut m: Model<u8, u8> = BTreeMap::new();
    for i in 0..66_003 {
        let x = r.u64() as u8;
        p.insert(9, x);
        m.entry(9).or_default().push(x);
        if [255, 256, 257, 65_535, 65_536, 65_537, 66_000, 66_001].contains(&(i + 1)) {
            layout(ctx, &p, &m, &9, true, r).map_err(|f| Fail(crate::util::clip(f.0, 2000)))?;
        }
    }
    ctx.count("wide pages", 1);
    Ok(())
}

fn any(ctx: &mut Ctx, r: &mut Rng, what: What) -> R {
    match r.below(18) {
        0 => run::<u8, u32, 1>(ctx, r, what),
        1 => run::<u8, String, 2>(ctx, r, what),
        2 => run::<u16, u32, 3>(ctx, r, what),
        3 => run::<u32, Vec<u8>, 5>(ctx, r, what),
        4 => run::<u64, u8, 10>(ctx, r, what),
        5 => run::<[u8; 2], u32, 2>(ctx, r, what),
        6 => run::<[u8; 3], bool, 64>(ctx, r, what),
        7 => run::<bool, u32, 3>(ctx, r, what),
        8 => run::<String, u32, 2>(ctx, r, what),
        9 => run::<String, String, 5>(ctx, r, what),
        10 => run::<Vec<u8>, u32, 1>(ctx, r, what),
        11 => run::<Vec<u8>, u8, 3>(ctx, r, what),
        12 => run::<i16, u32, 3>(ctx, r, what),
        13 => run::<Comp, u64, 2>(ctx, r, what),
        14 => run::<candid::Principal, u64, 4>(ctx, r, what),
        15 => run::<u32, Seq<u16>, 3>(ctx, r, what),
        16 => run::<u8, u8, 255>(ctx, r, what),
        _ => run::<u8, u8, 256>(ctx, r, what),
    }
}

pub fn c13(ctx: &mut Ctx, r: &mut Rng) -> R {
    if !ctx.small && ctx.huge {
        // A few long lists, one of them past the 16-bit page numbers.
        if ctx.case == 0 {
            let n = if ctx.tier == Tier::Quick { 66_500 } else { 140_000 };
            return long(ctx, r, n);
        }
        if ctx.case == 2 {
            return wide(ctx, r);
        }
        if ctx.case % 400 == 1 {
            let n = r.range(257, 1500);
            return long(ctx, r, n);
        }
    }
    any(ctx, r, What::Layout)
}

pub fn root(ctx: &mut Ctx, r: &mut Rng) -> R {
    any(ctx, r, What::Root)
}

pub fn witness(ctx: &mut Ctx, r: &mut Rng, j: Judge) -> R {
    any(ctx, r, What::Witness(j))
}
