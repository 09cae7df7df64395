//! C16: the certified state is a function of the history alone. Each case is a
//! history whose every root hash, witness, iteration and encoding is noted; the
//! notes are compared between repetitions here, and between processes, builds
//! and machines by the driver.

use crate::ensure;
use crate::group;
use crate::hist::*;
use crate::kinds::{pool, Comp, Key, Val};
use crate::report::{Ctx, R};
use crate::ser::{enc, Fmt, Wire};
use crate::tree;
use crate::util::{clip, Rng, Sig};
use crate::wit::{ask_map, ask_tree, gen_ask, Ask};
use candid::{Nat, Principal};
use certified_vars::{AsHashTree, HashTree, Map, Paged, Seq};
use std::collections::BTreeMap;

pub struct Notes {
    sig: Sig,
    lines: Vec<(String, u64)>,
    /// Few interpreter steps: no descriptions.
    quiet: bool,
    few: bool,
}

impl Notes {
    fn new(quiet: bool, few: bool) -> Self {
        Notes { sig: Sig::new(), lines: vec![], quiet, few }
    }
    fn put(&mut self, what: impl FnOnce() -> String, bytes: &[u8]) {
        let mut s = Sig::new();
        s.num(bytes.len() as u64);
        s.add(bytes);
        self.sig.num(s.0);
        self.lines.push((if self.quiet { String::new() } else { what() }, s.0));
    }
    fn witness(&mut self, what: impl FnOnce() -> String, w: &HashTree<'_>) {
        // The tree as built, and as a client gets it.
        let mut e = vec![];
        tree::encode(&tree::from(w), &mut e);
        e.extend(serde_cbor::to_vec(w).unwrap_or_default());
        e.extend_from_slice(&w.reconstruct());
        self.put(what, &e);
    }
}

fn note_map<K: Key, V: Val, S: Subject<K, V>>(n: &mut Notes, q: &mut Rng, i: usize, s: &S, keys: &[K]) {
    n.put(|| format!("root hash after step {}", i), &s.root());
    for _ in 0..if n.few { 1 } else { 3 } {
        let kind = q.below(9);
        let a: Ask<K> = gen_ask(q, keys, kind);
        let w = match s.as_map() {
            Some(m) => ask_map(m, &a),
            None => ask_tree(s.tree(), &a),
        };
        n.witness(|| format!("witness {:?} after step {}", a, i), &w);
    }
    if q.chance(1, 4) {
        n.witness(|| format!("full tree after step {}", i), &s.tree().as_hash_tree());
        let mut b = vec![];
        for (k, v) in certified_vars::rbtree::iterator::RbTreeIterator::new(s.tree()) {
            b.extend_from_slice(&(k.bytes().len() as u64).to_be_bytes());
            b.extend_from_slice(&k.bytes());
            tree::encode(&v.t(), &mut b);
        }
        n.put(|| format!("iteration after step {}", i), &b);
    }
}

fn map_run<K: Key, V: Val, S: Subject<K, V>>(n: &mut Notes, keys: &[K], ops: &[Op<K, V>], qseed: u64, every: usize) {
    let mut q = Rng::new(qseed);
    let mut s = S::new();
    let total = ops.len();
    for (i, op) in ops.iter().enumerate() {
        let got = s.apply(op.clone());
        n.put(|| format!("result of step {} {:?}", i, op), format!("{:?}", got).as_bytes());
        if i % every == every - 1 || i + 1 == total {
            note_map::<K, V, S>(n, &mut q, i, &s, keys);
        }
    }
}

/// Run twice, at different addresses.
fn twice(ctx: &mut Ctx, what: String, mut f: impl FnMut(&mut Notes)) -> R {
    let mut a = Notes::new(ctx.small && !ctx.log, ctx.small);
    f(&mut a);
    if !cfg!(miri) {
        again(ctx, what, &a, f)?;
    }
    for (what, s) in &a.lines {
        if ctx.log {
            println!("{:016x} {}", s, clip(what.clone(), 600));
        }
        ctx.seen(*s);
    }
    ctx.digest.num(a.sig.0);
    Ok(())
}

fn again(ctx: &mut Ctx, what: String, a: &Notes, mut f: impl FnMut(&mut Notes)) -> R {
    let mut junk: Vec<Vec<u8>> = vec![];
    let mut r = Rng::new(ctx.case);
    for _ in 0..r.below(60) {
        junk.push(vec![1; r.range(1, 200)]);
    }
    junk.retain(|_| r.chance(1, 2));
    let mut b = Notes::new(a.quiet, a.few);
    f(&mut b);
    drop(junk);
    for (i, (x, y)) in a.lines.iter().zip(b.lines.iter()).enumerate() {
        ensure!(x == y, "{}: the same history run twice in one process differs at observation {}: {} against {}", what, i, clip(format!("{:?}", x), 800), clip(format!("{:?}", y), 800));
    }
    ensure!(a.lines.len() == b.lines.len() && a.sig.0 == b.sig.0, "{}: the same history run twice gives {} and {} observations", what, a.lines.len(), b.lines.len());
    ctx.count("observations repeated at other addresses", a.lines.len() as u64);
    Ok(())
}

fn size(ctx: &Ctx, r: &mut Rng) -> Shape {
    if ctx.small {
        Shape { pool: r.range(2, 9), ops: r.range(3, 16), exotic: r.below(5) }
    } else {
        shape(r, 300)
    }
}

fn map_case<K: Key, V: Val>(ctx: &mut Ctx, r: &mut Rng) -> R {
    let sh = size(ctx, r);
    let (keys, ops) = history::<K, V>(r, sh);
    let on_map = r.chance(1, 2);
    let every = if ops.len() > 40 { 17 } else { 2 };
    let qseed = r.u64();
    ctx.sample(|| format!("{}: {} operations over {} keys, starting {:?}", crate::mapchk::describe::<K, V>("Map or RbTree"), ops.len(), keys.len(), &ops[..ops.len().min(4)]));
    twice(ctx, crate::mapchk::describe::<K, V>("Map or RbTree"), |n| {
        if on_map {
            map_run::<K, V, Map<K, V>>(n, &keys, &ops, qseed, every)
        } else {
            map_run::<K, V, certified_vars::rbtree::RbTree<K, V>>(n, &keys, &ops, qseed, every)
        }
    })
}

/// Encodings, and life after decoding.
fn wire_case<K: Key + Wire, V: Val + Wire>(ctx: &mut Ctx, r: &mut Rng) -> R {
    let sh = size(ctx, r);
    let (keys, ops) = history::<K, V>(r, sh);
    let qseed = r.u64();
    twice(ctx, crate::mapchk::describe::<K, V>("Map"), |n| {
        let mut s: Map<K, V> = Map::new();
        for (i, op) in ops.iter().enumerate() {
            s.apply(op.clone());
            if i % 7 == 6 || i + 1 == ops.len() {
                for f in [Fmt::Cbor, Fmt::Candid] {
                    let Ok(b) = enc(f, &s) else { continue };
                    n.put(|| format!("{:?} encoding after step {}", f, i), &b);
                    if let Ok(d) = crate::ser::dec::<Map<K, V>>(f, &b) {
                        let mut q = Rng::new(qseed);
                        note_map::<K, V, Map<K, V>>(n, &mut q, i, &d, &keys);
                    }
                }
            }
        }
    })
}

fn seq_case<T: crate::seqc::Elem>(ctx: &mut Ctx, r: &mut Rng) -> R {
    let steps: Vec<Vec<T>> = (0..r.range(1, 8)).map(|_| (0..r.below(5)).map(|_| T::gen(r)).collect()).collect();
    let forms: Vec<usize> = steps.iter().map(|_| r.below(4)).collect();
    twice(ctx, format!("Seq<{}>", T::NAME), |n| {
        let mut s: Seq<T> = Seq::new();
        for (i, (xs, f)) in steps.iter().zip(forms.iter()).enumerate() {
            match f {
                0 => xs.iter().for_each(|x| s.append(x.clone())),
                1 => s.extend(xs.iter().cloned()),
                2 => {
                    let mut v = s.as_vec().clone();
                    v.extend(xs.iter().cloned());
                    s = Seq::from(v);
                }
                _ => s = s.iter().cloned().chain(xs.iter().cloned()).collect(),
            }
            n.put(|| format!("root hash after step {}", i), &s.root_hash());
            n.witness(|| format!("tree after step {}", i), &s.as_hash_tree());
            for f in [Fmt::Cbor, Fmt::Candid] {
                if let Ok(b) = enc(f, &s) {
                    n.put(|| format!("{:?} encoding after step {}", f, i), &b);
                }
            }
        }
    })
}

fn paged_case<K: Key + Wire, V: crate::seqc::Elem, const S: usize>(ctx: &mut Ctx, r: &mut Rng) -> R {
    let nk = r.range(1, 5);
    let keys: Vec<K> = pool(r, nk);
    let ops: Vec<(usize, V)> = (0..if ctx.small { r.range(1, 14) } else { r.range(1, 80) }).map(|_| (r.below(keys.len()), V::gen(r))).collect();
    let qseed = r.u64();
    twice(ctx, format!("Paged<{}, {}, {}>", K::NAME, V::NAME, S), |n| {
        let mut q = Rng::new(qseed);
        let mut p: Paged<K, V, S> = Paged::new();
        for (i, (k, v)) in ops.iter().enumerate() {
            p.insert(keys[*k].clone(), v.clone());
            if i % 5 == 4 || i + 1 == ops.len() {
                n.put(|| format!("root hash after insertion {}", i), &p.root_hash());
                let k = q.pick(&keys).clone();
                let page = q.below(4);
                n.witness(|| format!("page {} of {:?} after insertion {}", page, k, i), &p.witness(&k, page));
                n.witness(|| format!("last page of {:?} after insertion {}", k, i), &p.witness_last_page_number(&k));
                n.put(|| format!("last page number of {:?} after insertion {}", k, i), format!("{:?}", p.get_last_page_number(&k)).as_bytes());
                for f in [Fmt::Cbor, Fmt::Candid] {
                    if let Ok(b) = enc(f, &p) {
                        n.put(|| format!("{:?} encoding after insertion {}", f, i), &b);
                    }
                }
            }
        }
    })
}

fn group_case(ctx: &mut Ctx, r: &mut Rng) -> R {
    let xs = group::paths(r, ctx.small);
    let seeds: BTreeMap<usize, u64> = (0..group::LEAVES).map(|i| (i, r.u64())).collect();
    let qseed = r.u64();
    twice(ctx, format!("group of {:?}", xs), |n| {
        let mut q = Rng::new(qseed);
        group::notes(&xs, &seeds, &mut q, |what, w| n.witness(|| what, w));
    })
}

fn nested_case(ctx: &mut Ctx, r: &mut Rng) -> R {
    let steps: Vec<(u8, u16, u8, u32)> = (0..r.range(2, 20)).map(|_| (r.below(3) as u8, r.below(4) as u16, r.below(4) as u8, r.u64() as u32)).collect();
    twice(ctx, "Map<u8, Map<u16, Map<u8, u32>>>".into(), |n| {
        let mut d: Map<u8, Map<u16, Map<u8, u32>>> = Map::new();
        for (i, (a, b, c, x)) in steps.iter().enumerate() {
            if x % 5 == 0 {
                if let Some(m) = d.get_mut(a) {
                    m.remove(b);
                }
            } else {
                d.entry(*a).or_default().entry(*b).or_default().insert(*c, *x);
            }
            n.put(|| format!("root hash after step {}", i), &d.root_hash());
            let w = d.as_tree().nested_witness(a, |p| p.as_tree().nested_witness(b, |q| q.witness(c)));
            n.witness(|| format!("nested witness after step {}", i), &w);
            n.put(|| "encoding".into(), &serde_cbor::to_vec(&d).unwrap());
            n.put(|| "Candid encoding".into(), &candid::encode_one(&d).unwrap());
        }
    })
}

pub fn c16(ctx: &mut Ctx, r: &mut Rng) -> R {
    match r.below(24) {
        0..=9 => {
            let kind = r.below(crate::kinds::KINDS);
            use map_case as f;
            crate::with_kind!(kind, f(ctx, r))
        }
        10 => wire_case::<String, String>(ctx, r),
        11 => wire_case::<u32, Nat>(ctx, r),
        12 => wire_case::<Comp, Seq<u16>>(ctx, r),
        13 => wire_case::<Principal, u64>(ctx, r),
        14 => wire_case::<i64, Vec<u8>>(ctx, r),
        15 => seq_case::<u32>(ctx, r),
        16 => seq_case::<String>(ctx, r),
        17 => seq_case::<Nat>(ctx, r),
        18 => paged_case::<u16, u32, 2>(ctx, r),
        19 => paged_case::<String, String, 3>(ctx, r),
        20 | 21 | 22 => group_case(ctx, r),
        _ => nested_case(ctx, r),
    }
}

