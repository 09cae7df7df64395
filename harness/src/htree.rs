//! C07: hashing, CBOR and listings of hash trees.

use crate::ensure;
use crate::kinds::LENS;
use crate::report::{guarded, Ctx, Fail, R};
use crate::tree::{self, T};
use crate::util::{clip, hex, Rng, Sig};
use certified_vars::hashtree::{fork, fork_hash, labeled, labeled_hash, leaf_hash, ForkInner};
use certified_vars::{AsHashTree, HashTree};
use std::borrow::Cow;

fn blob(r: &mut Rng, small: bool) -> Vec<u8> {
    let n = match r.below(40) {
        0 if !small => *r.pick(&[1000usize, 4096, 65535, 65536, 65537, 70000]),
        1..=9 => *r.pick(LENS),
        10 => 0,
        _ => r.below(12),
    };
    match r.below(4) {
        0 => vec![*r.pick(&[0u8, 0xff, b'a']); n],
        _ => r.bytes(n),
    }
}

fn gen(r: &mut Rng, budget: &mut usize, depth: usize, small: bool) -> T {
    if *budget == 0 || depth == 0 {
        return match r.below(4) {
            0 => T::Empty,
            1 => {
                let mut h = [0u8; 32];
                let v = r.bytes(32);
                h.copy_from_slice(&v);
                if r.chance(1, 6) {
                    h = [0; 32];
                }
                T::Pruned(h)
            }
            _ => T::Leaf(blob(r, small)),
        };
    }
    *budget -= 1;
    match r.below(7) {
        0..=2 => {
            let l = gen(r, budget, depth - 1, small);
            let x = gen(r, budget, depth - 1, small);
            T::Fork(Box::new((l, x)))
        }
        3..=5 => T::Labeled(blob(r, small), Box::new(gen(r, budget, depth - 1, small))),
        _ => gen(r, budget, 0, small),
    }
}

/// A path-like tree of the given depth.
fn deep(r: &mut Rng, depth: usize) -> T {
    let mut t = T::leaf(b"bottom");
    for i in 0..depth {
        t = match r.below(3) {
            0 => T::Labeled(vec![i as u8], Box::new(t)),
            1 => T::Fork(Box::new((t, T::Empty))),
            _ => T::Fork(Box::new((T::leaf(&[i as u8]), t))),
        };
    }
    t
}

/// The same tree as a library value, through the different constructors.
pub fn build<'a>(t: &'a T, r: &mut Rng) -> HashTree<'a> {
    match t {
        T::Empty => HashTree::Empty,
        T::Fork(p) => {
            let a = build(&p.0, r);
            let b = build(&p.1, r);
            if r.chance(1, 2) {
                fork(a, b)
            } else {
                HashTree::Fork(Box::new(ForkInner(a, b)))
            }
        }
        T::Labeled(l, x) => {
            let x = build(x, r);
            if r.chance(1, 2) {
                labeled(l, x)
            } else {
                HashTree::Labeled(Cow::Owned(l.clone()), Box::new(x))
            }
        }
        T::Leaf(b) => HashTree::Leaf(if r.chance(1, 2) { Cow::Borrowed(&b[..]) } else { Cow::Owned(b.clone()) }),
        T::Pruned(h) => HashTree::Pruned(*h),
    }
}

pub fn check<'a>(ctx: &mut Ctx, t: &T, lib: &'a HashTree<'a>) -> R {
    let show = || clip(format!("{:?}", t), 1500);
    let want = t.hash();
    let got = lib.reconstruct();
    ensure!(got == want, "reconstruct() is {}, the specification's hash is {} for {}", hex(&got), hex(&want), show());
    let enc = serde_cbor::to_vec(lib).map_err(|e| Fail(format!("serialization fails: {} for {}", e, show())))?;
    let mut spec = vec![];
    tree::encode(t, &mut spec);
    match tree::decode(&enc) {
        Ok(d) => ensure!(d == *t, "the serialized tree decodes to {:?}, not {}", d, show()),
        Err(e) => return Err(Fail(format!("the serialized tree does not decode ({}): {} for {}", e, clip(hex(&enc), 400), show()))),
    }
    ensure!(enc == spec, "the serialization {} is not the specification's {}", clip(hex(&enc), 400), clip(hex(&spec), 400));
    ensure!(tree::from(lib) == *t, "the tree changed while being read");
    ensure!(lib.get_labels() == t.labels(), "get_labels() is {:?}, should be {:?} for {}", lib.get_labels(), t.labels(), show());
    ensure!(lib.get_leaf_values() == t.leaves(), "get_leaf_values() differs for {}", show());
    ctx.count("trees", 1);
    ctx.count("serialized bytes compared", enc.len() as u64);
    ctx.max("nodes", t.size() as u64);
    if t.size() > 1 {
        let mut s = Sig::new();
        s.add(&spec);
        ctx.seen(s.0);
    } else {
        ctx.trivial();
    }
    Ok(())
}

pub fn c07(ctx: &mut Ctx, r: &mut Rng) -> R {
    for _ in 0..6 {
        let mut budget = *r.pick(&[0usize, 1, 2, 3, 5, 10, 40, if ctx.small { 10 } else { 300 }]);
        let depth = *r.pick(&[1usize, 2, 3, 6, 12, 40]);
        let t = gen(r, &mut budget, depth, ctx.small);
        let lib = build(&t, r);
        guarded(|| check(ctx, &t, &lib))?;
        ctx.sample(|| format!("{:?}", t));
        // Equality of library trees is equality of trees.
        let mut b2 = 5;
        let other = gen(r, &mut b2, 3, ctx.small);
        let ol = build(&other, r);
        ensure!((lib == ol) == (t == other), "tree equality is wrong for {:?} and {:?}", t, other);
    }
    if r.chance(1, 20) && !ctx.small {
        let d = *r.pick(&[60usize, 200, 500]);
        let t = deep(r, d);
        let lib = build(&t, r);
        guarded(|| check(ctx, &t, &lib))?;
    }
    // The hash helpers.
    let (a, b) = (blob(r, ctx.small), blob(r, ctx.small));
    let (ha, hb) = (tree::h_leaf(&a), tree::h_leaf(&b));
    ensure!(leaf_hash(&a) == ha, "leaf_hash({}) is wrong", clip(hex(&a), 200));
    ensure!(labeled_hash(&b, &ha) == tree::h_labeled(&b, &ha), "labeled_hash({}, ..) is wrong", clip(hex(&b), 200));
    ensure!(fork_hash(&ha, &hb) == tree::h_fork(&ha, &hb), "fork_hash is wrong");
    // Trees made by the collections.
    if r.chance(1, 3) {
        let n = r.below(if ctx.small { 6 } else { 60 });
        let mut m = certified_vars::Map::<Vec<u8>, Vec<u8>>::new();
        for i in 0..n {
            let st = r.below(5) as u32;
            let k = crate::kinds::gen_bytes(r, st, i);
            m.insert(k, blob(r, true));
        }
        let k = crate::kinds::gen_bytes(r, 0, 0);
        for lib in [m.as_hash_tree(), m.witness(&k), m.witness_keys(), m.witness_keys_with_prefix::<[u8]>(&k)] {
            let t = tree::from(&lib);
            guarded(|| check(ctx, &t, &lib))?;
        }
    }
    Ok(())
}
