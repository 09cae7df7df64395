//! C10: balance of the search tree, and the cost of operations, seen through
//! keys that count comparisons and values that count hashing.

use crate::ensure;
use crate::hist::*;
use crate::kinds::{Key, Val};
use crate::report::{Ctx, R, Tier};
use crate::tree::{self, T};
use crate::util::{Rng, Sig};
use certified_vars::label::Label;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Hash, HashTree, Map};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::BTreeMap;

thread_local! {
    static CMPS: Cell<u64> = Cell::new(0);
    static HASHES: Cell<u64> = Cell::new(0);
}

fn reset() {
    CMPS.with(|c| c.set(0));
    HASHES.with(|c| c.set(0));
}
fn counts() -> (u64, u64) {
    (CMPS.with(|c| c.get()), HASHES.with(|c| c.get()))
}

#[derive(Clone, Debug)]
pub struct CK(u32);
impl PartialEq for CK {
    fn eq(&self, o: &CK) -> bool {
        CMPS.with(|c| c.set(c.get() + 1));
        self.0 == o.0
    }
}
impl Eq for CK {}
impl PartialOrd for CK {
    fn partial_cmp(&self, o: &CK) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for CK {
    fn cmp(&self, o: &CK) -> Ordering {
        CMPS.with(|c| c.set(c.get() + 1));
        self.0.cmp(&o.0)
    }
}
impl Label for CK {
    fn as_label(&self) -> Cow<'_, [u8]> {
        Cow::Owned(self.0.to_be_bytes().to_vec())
    }
}
impl Key for CK {
    const NAME: &'static str = "u32, counting comparisons";
    const FIXED: bool = true;
    fn gen(r: &mut Rng, style: u32, i: usize) -> Self {
        match style % 3 {
            0 => CK(i as u32),
            1 => CK(r.u64() as u32),
            _ => CK(r.below(100_000) as u32),
        }
    }
    fn bytes(&self) -> Vec<u8> {
        self.0.to_be_bytes().to_vec()
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct CV(u32);
impl AsHashTree for CV {
    fn root_hash(&self) -> Hash {
        HASHES.with(|c| c.set(c.get() + 1));
        self.0.root_hash()
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.0.as_hash_tree()
    }
}
impl Val for CV {
    const NAME: &'static str = "u32, counting hashing";
    fn gen(r: &mut Rng) -> Self {
        CV(r.u64() as u32)
    }
    fn t(&self) -> T {
        T::leaf(&self.0.to_be_bytes())
    }
    fn dflt() -> Self {
        CV(0)
    }
}

/// The keys a search for `k` looks at, in order.
fn path<V: AsHashTree + 'static>(t: &RbTree<CK, V>, k: u32) -> Vec<u32> {
    let seen = RefCell::new(vec![]);
    t.get_with(|x| {
        let mut s = seen.borrow_mut();
        if s.last() != Some(&x.0) {
            s.push(x.0);
        }
        k.cmp(&x.0)
    });
    seen.into_inner()
}

/// Rebuild the tree's shape from its search paths, and judge it.
fn balanced<V: AsHashTree + 'static>(ctx: &mut Ctx, t: &RbTree<CK, V>, keys: &[u32]) -> R<u64> {
    let n = keys.len();
    let limit = 2.0 * ((n + 1) as f64).log2() + 1e-9;
    // left/right child of each key
    let mut kids: BTreeMap<u32, [Option<u32>; 2]> = keys.iter().map(|k| (*k, [None, None])).collect();
    let mut root: Option<u32> = None;
    let mut sig = Sig::new();
    for k in keys {
        let p = path(t, *k);
        ensure!(p.last() == Some(k), "the search for {} ends at {:?}", k, p);
        ensure!(p.len() as f64 <= limit, "the search for {} visits {} of {} entries; 2*log2(n+1) is {:.1}", k, p.len(), n, limit);
        ctx.max("entries visited by a search, per mille of 2*log2(n+1)", (p.len() as f64 * 1000.0 / limit) as u64);
        ensure!(root.map_or(true, |r| r == p[0]), "searches start at different entries");
        root = Some(p[0]);
        for w in p.windows(2) {
            let Some(e) = kids.get_mut(&w[0]) else { crate::fail!("a search visits {}, which is not in the tree", w[0]) };
            let side = (w[1] > w[0]) as usize;
            ensure!(e[side].map_or(true, |x| x == w[1]), "searches leave entry {} differently", w[0]);
            e[side] = Some(w[1]);
        }
        sig.num(p.len() as u64);
    }
    // Absent keys end below some entry; they visit no more either.
    for k in keys {
        for a in [k.wrapping_sub(1), k.wrapping_add(1)] {
            let l = path(t, a).len();
            ensure!(l as f64 <= limit, "the search for {} visits {} of {} entries; 2*log2(n+1) is {:.1}", a, l, n, limit);
        }
    }
    fn go(k: Option<u32>, kids: &BTreeMap<u32, [Option<u32>; 2]>, worst: &mut (u64, Option<(u32, u64, u64)>), depth: usize) -> (u64, u64) {
        let Some(k) = k else { return (0, 0) };
        if depth > 10_000 {
            return (0, u64::MAX / 4);
        }
        let c = kids[&k];
        let (a, b) = (go(c[0], kids, worst, depth + 1), go(c[1], kids, worst, depth + 1));
        let (lo, hi) = (1 + a.0.min(b.0), 1 + a.1.max(b.1));
        let r = hi * 1000 / lo;
        worst.0 = worst.0.max(r);
        if hi > 2 * lo && worst.1.is_none() {
            worst.1 = Some((k, lo, hi));
        }
        (lo, hi)
    }
    let mut worst = (0, None);
    let (_, height) = go(root, &kids, &mut worst, 0);
    ctx.max("longest path, per mille of the shortest, in a subtree", worst.0);
    if let (_, Some((k, lo, hi))) = worst {
        crate::fail!("below entry {} of {} the paths to an end have from {} to {} entries", k, n, lo, hi);
    }
    ctx.count("trees whose every subtree was judged", 1);
    ctx.max("entries", n as u64);
    ctx.max("height", height);
    Ok(sig.0)
}

fn height_bound(n: usize) -> f64 {
    2.0 * ((n + 2) as f64).log2() + 2.0
}

fn run<S: Subject<CK, CV>>(ctx: &mut Ctx, r: &mut Rng) -> R {
    let big = if ctx.tier == Tier::Quick { 3000 } else { 12_000 };
    let sh = shape(r, big);
    let (keys, ops) = if r.chance(1, 3) { structured(r, sh.pool) } else { history::<CK, CV>(r, sh) };
    let what = format!("{} of {} keys", S::NAME, keys.len());
    ctx.sample(|| format!("{}: {} operations, starting {:?}", what, ops.len(), &ops[..ops.len().min(6)]));
    let qs = r.u64();
    run_shrunk(ops, &what, |ops| {
        let mut q = Rng::new(qs);
        let mut s = S::new();
        let mut m: BTreeMap<CK, CV> = BTreeMap::new();
        let total = ops.len();
        for (i, op) in ops.iter().enumerate() {
            let n0 = m.len();
            model(&mut m, op);
            match op {
                Op::Clear | Op::Bulk(_) => {
                    s.apply(op.clone());
                    s.root();
                }
                _ => {
                    let o = op.clone();
                    reset();
                    s.apply(o);
                    s.root();
                    let (c, h) = counts();
                    let n = n0.max(m.len());
                    let b = height_bound(n);
                    // A history step may be two calls (insert and write).
                    ensure!((c as f64) <= 12.0 * b + 20.0, "step {} {:?} on {} entries makes {} key comparisons", i, op, n, c);
                    ensure!((h as f64) <= 24.0 * b + 30.0, "step {} {:?} on {} entries hashes {} values", i, op, n, h);
                    ctx.max("key comparisons of a change, per mille of 2*log2(n+2)+2", (c as f64 * 1000.0 / b) as u64);
                    ctx.max("values hashed by a change, per mille of 2*log2(n+2)+2", (h as f64 * 1000.0 / b) as u64);
                    ctx.count("changes costed", 1);
                    ctx.trivial();
                }
            }
            ensure!(s.tree().len() == m.len(), "step {} {:?}: {} entries, should be {}", i, op, s.tree().len(), m.len());
            if i + 1 == total || due(i, total, m.len(), 6) {
                let ks: Vec<u32> = m.keys().map(|k| k.0).collect();
                let sig = balanced(ctx, s.tree(), &ks).map_err(|f| crate::report::Fail(format!("after step {} {:?}: {}", i, op, f.0)))?;
                if ks.len() >= 2 {
                    ctx.seen(sig);
                } else {
                    ctx.trivial();
                }
                for j in 0..4 {
                    let k = if j < 2 && !ks.is_empty() { CK(*q.pick(&ks)) } else { CK(q.pick(&keys).0.wrapping_add(q.below(2) as u32)) };
                    let b = height_bound(ks.len());
                    reset();
                    let found = s.tree().get(&k).is_some();
                    let (c, h) = counts();
                    ensure!(found == m.contains_key(&k), "get({}) finds {}", k.0, found);
                    ensure!(c as f64 <= 3.0 * b && h == 0, "get on {} entries makes {} comparisons and hashes {} values", ks.len(), c, h);
                    reset();
                    let w = s.tree().witness(&k);
                    let (c, h) = counts();
                    let size = tree::from(&w).size();
                    ensure!(c as f64 <= 24.0 * b + 20.0 && h as f64 <= 24.0 * b + 30.0, "a witness on {} entries costs {} comparisons and {} value hashes", ks.len(), c, h);
                    ensure!(size as f64 <= 10.0 * b + 10.0, "the witness for {} on {} entries has {} nodes", k.0, ks.len(), size);
                    ctx.max("witness nodes, per mille of 2*log2(n+2)+2", (size as f64 * 1000.0 / b) as u64);
                    ctx.max("comparisons of a witness, per mille of 2*log2(n+2)+2", (c as f64 * 1000.0 / b) as u64);
                    ctx.max("comparisons of a lookup, per mille of 2*log2(n+1)", if ks.is_empty() { 0 } else { (counts_of_get(s.tree(), &k) as f64 * 1000.0 / (2.0 * ((ks.len() + 1) as f64).log2())) as u64 });
                    ctx.count("witnesses costed", 1);
                }
            }
        }
        Ok(())
    })
}

fn counts_of_get(t: &RbTree<CK, CV>, k: &CK) -> u64 {
    reset();
    let _ = t.get(k);
    counts().0
}

/// The same bounds at sizes where a shallow bound would show.
pub fn huge(ctx: &mut Ctx, r: &mut Rng, n: usize) -> R {
    let mut t = RbTree::<CK, CV>::new();
    let mut keys: std::collections::BTreeSet<u32> = Default::default();
    let mut ops: Vec<(bool, u32)> = vec![];
    ops.extend(crate::huge::order(r, n).into_iter().map(|i| (true, 2 * i)));
    let part = r.range(n / 2, n - 1);
    ops.extend(crate::huge::order(r, n).into_iter().take(part).map(|i| (false, 2 * i)));
    ops.extend(crate::huge::order(r, n / 8).into_iter().map(|i| (true, 2 * i)));
    let total = ops.len();
    for (i, (put, k)) in ops.into_iter().enumerate() {
        let n = keys.len().max(1);
        let b = height_bound(n);
        reset();
        if put {
            t.insert(CK(k), CV(k));
            keys.insert(k);
        } else {
            t.delete(&CK(k));
            keys.remove(&k);
        }
        t.root_hash();
        let (c, h) = counts();
        ensure!((c as f64) <= 12.0 * b + 20.0, "a change of {} in {} entries makes {} key comparisons", k, n, c);
        ensure!((h as f64) <= 24.0 * b + 30.0, "a change of {} in {} entries hashes {} values", k, n, h);
        ctx.count("changes costed", 1);
        if i + 1 == total || (i + 1) % (total / 5) == 0 {
            let ks: Vec<u32> = keys.iter().copied().collect();
            let sig = balanced(ctx, &t, &ks)?;
            ctx.seen(sig);
            let w = t.witness(&CK(k));
            let size = tree::from(&w).size();
            ensure!(size as f64 <= 10.0 * b + 10.0, "the witness for {} on {} entries has {} nodes", k, keys.len(), size);
        }
    }
    ctx.count("large collections", 1);
    Ok(())
}

/// Fills and drains in the orders that stress rebalancing.
fn structured(r: &mut Rng, n: usize) -> (Vec<CK>, Vec<Op<CK, CV>>) {
    let n = n.max(3);
    let keys: Vec<CK> = (0..n as u32).map(|i| CK(i * 2)).collect();
    let order = |r: &mut Rng, kind: usize| -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        match kind {
            0 => {}
            1 => v.reverse(),
            2 => r.shuffle(&mut v),
            3 => v = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
            4 => v = (0..n).map(|i| if i % 2 == 0 { n / 2 + i / 2 } else { n / 2 - 1 - i / 2 }).map(|i| i.min(n - 1)).collect(),
            // Every other one, then the rest.
            5 => v = (0..n).filter(|i| i % 2 == 0).chain((0..n).filter(|i| i % 2 == 1)).collect(),
            _ => {
                let step = [3, 5, 7, 11][r.below(4)];
                v = (0..step).flat_map(|s| (0..n).filter(move |i| i % step == s)).collect()
            }
        }
        v
    };
    let mut ops = vec![];
    for _ in 0..r.range(1, 3) {
        let k = r.below(7);
        for i in order(r, k) {
            ops.push(Op::Insert(keys[i].clone(), CV::gen(r)));
        }
        let k = r.below(7);
        let part = r.range(1, n);
        for i in order(r, k).into_iter().take(part) {
            ops.push(Op::Remove(keys[i].clone()));
        }
    }
    (keys, ops)
}

pub fn c10(ctx: &mut Ctx, r: &mut Rng) -> R {
    if r.chance(1, 2) {
        run::<Map<CK, CV>>(ctx, r)
    } else {
        run::<RbTree<CK, CV>>(ctx, r)
    }
}
