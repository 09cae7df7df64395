//! C12: sequences.

use crate::hist::run_shrunk;
use crate::kinds::Val;
use crate::report::{Ctx, R, Tier};
use crate::sha::sha256;
use crate::tree::{self, H};
use crate::util::{hex, hinted, Rng, Sig, HINTS};
use crate::ensure;
use candid::{CandidType, Nat, Principal};
use certified_vars::{AsHashTree, Seq};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::borrow::Borrow;

/// The chain hash of a list of item root hashes.
pub fn chain(items: impl IntoIterator<Item = H>) -> H {
    let mut h = [0u8; 32];
    for i in items {
        h = sha256(&[&h, &i]);
    }
    h
}

pub trait Elem: Val + Serialize + DeserializeOwned + CandidType {
    /// Whether the item type itself survives a CBOR round trip.
    const CBOR: bool = true;
    fn extend_refs(s: &mut Seq<Self>, xs: &[Self]) {
        s.extend(xs.iter().cloned())
    }
}
macro_rules! elem {
    ($($t:ty),*) => {$(impl Elem for $t {})*};
}
macro_rules! copy_elem {
    ($($t:ty),*) => {$(impl Elem for $t {
        fn extend_refs(s: &mut Seq<Self>, xs: &[Self]) {
            if xs.len() % 3 == 0 {
                s.extend(xs.iter())
            } else {
                s.extend(hinted(xs.iter().collect::<Vec<&$t>>(), xs.len()))
            }
        }
    })*};
}
elem!(Vec<u8>, String, Principal, Box<u32>, Seq<u16>);
impl Elem for Nat {
    const CBOR: bool = false;
}
copy_elem!(u8, u32, u64, bool);

#[derive(Clone, Debug)]
pub enum Op<T> {
    Append(T),
    Extend(Vec<T>, u8),
    ExtendRefs(Vec<T>),
    Clear,
    Reserve(usize, u8),
    Shrink,
    CloneKeep,
    CloneSwap(T),
    FromVec,
    ThroughVec,
    FromSlice,
    FromMutSlice,
    Collect(usize),
    Cbor,
    Candid,
    New(u8),
}

fn gen_op<T: Elem>(r: &mut Rng, big: bool) -> Op<T> {
    let list = |r: &mut Rng| -> Vec<T> {
        let n = if big { r.below(400) } else { r.below(6) };
        (0..n).map(|_| T::gen(r)).collect()
    };
    match r.below(27) {
        0..=6 => Op::Append(T::gen(r)),
        7..=9 => {
            let f = r.below(4) as u8;
            Op::Extend(list(r), f)
        }
        10 | 11 => Op::ExtendRefs(list(r)),
        12 => Op::Clear,
        13 => Op::Reserve(r.below(50), r.below(2) as u8),
        14 => Op::Shrink,
        15 => Op::CloneKeep,
        16 => Op::CloneSwap(T::gen(r)),
        17 => Op::FromVec,
        18 => Op::ThroughVec,
        19 => Op::FromSlice,
        20 => Op::FromMutSlice,
        21 => Op::Collect(r.below(HINTS)),
        22 | 23 => Op::Cbor,
        24 => Op::Candid,
        25 => {
            let f = 4 + r.below(HINTS) as u8;
            Op::Extend(list(r), f)
        }
        _ => {
            if r.chance(1, 3) {
                Op::New(r.below(3) as u8)
            } else {
                Op::Append(T::gen(r))
            }
        }
    }
}

pub fn judge<T: Elem>(ctx: &mut Ctx, r: &mut Rng, i: usize, op: &str, s: &Seq<T>, m: &[T]) -> R {
    let want = chain(m.iter().map(|x| x.t().hash()));
    let got = s.root_hash();
    ensure!(got == want, "after step {} {} the root hash is {}, the chain hash of the {} items is {}", i, op, hex(&got), m.len(), hex(&want));
    ensure!(tree::from(&s.as_hash_tree()) == tree::T::Pruned(want), "after step {} {} the hash tree is {:?}", i, op, s.as_hash_tree());
    contents(ctx, r, i, op, s, m, want)
}

fn contents<T: Elem>(ctx: &mut Ctx, r: &mut Rng, i: usize, op: &str, s: &Seq<T>, m: &[T], hash: H) -> R {
    ensure!(s.len() == m.len() && s.is_empty() == m.is_empty(), "after step {} {} the length is {}, should be {}", i, op, s.len(), m.len());
    ensure!(&s.as_vec()[..] == m && s.iter().eq(m.iter()), "after step {} {} the items are {:?}, should be {:?}", i, op, s.as_vec(), m);
    let a: &[T] = s.as_ref();
    let b: &[T] = s.borrow();
    ensure!(a == m && b == m, "as_ref or borrow differs after step {} {}", i, op);
    ensure!(s.capacity() >= s.len(), "capacity below length");
    if !m.is_empty() {
        let j = r.below(m.len());
        let k = r.range(j, m.len());
        ensure!(s[j] == m[j] && s[j..k] == m[j..k] && s[..k] == m[..k] && s[j..] == m[j..], "indexing differs after step {} {}", i, op);
    }
    let mut sig = Sig::new();
    for x in m {
        let mut e = vec![];
        tree::encode(&x.t(), &mut e);
        sig.num(e.len() as u64);
        sig.add(&e);
    }
    sig.num(m.len() as u64);
    // Different contents never share a hash.
    if ctx.roots.len() < 400_000 {
        let old = ctx.roots.insert(hash, sig.0);
        ensure!(old.map_or(true, |o| o == sig.0), "two different sequences have the hash {}", hex(&hash));
    }
    // Equality follows the contents.
    let rebuilt: Seq<T> = m.iter().cloned().collect();
    ensure!(*s == rebuilt, "after step {} {} the sequence is not equal to one collected from its items", i, op);
    ensure!(s.root_hash() == rebuilt.root_hash(), "after step {} {}: equal contents, different hashes", i, op);
    if !m.is_empty() {
        let mut other = m.to_vec();
        let j = r.below(other.len());
        let x = T::gen(r);
        let differs = x != other[j];
        other[j] = x;
        let o = Seq::from(other);
        ensure!((*s != o) == differs && (s.root_hash() != o.root_hash()) == differs, "after step {} {}: a sequence with item {} changed compares equal, or hashes alike", i, op, j);
        let shorter: Seq<T> = m[..m.len() - 1].iter().cloned().collect();
        ensure!(*s != shorter && s.root_hash() != shorter.root_hash(), "a sequence equals its own beginning");
    }
    ctx.count("root hashes compared with the chain hash", 1);
    ctx.max("items", m.len() as u64);
    if m.len() >= 2 {
        sig.add(op.as_bytes());
        ctx.seen(sig.0);
    } else {
        ctx.trivial();
    }
    Ok(())
}

fn name<T>(o: &Op<T>) -> &'static str {
    match o {
        Op::Append(_) => "append",
        Op::Extend(_, 0) => "extend (exact size)",
        Op::Extend(..) => "extend (unknown size)",
        Op::ExtendRefs(_) => "extend by reference",
        Op::Clear => "clear",
        Op::Reserve(..) => "reserve",
        Op::Shrink => "shrink_to_fit",
        Op::CloneKeep => "clone",
        Op::CloneSwap(_) => "clone and go on with the clone",
        Op::FromVec => "from Vec",
        Op::ThroughVec => "into Vec and back",
        Op::FromSlice => "from slice",
        Op::FromMutSlice => "from mutable slice",
        Op::Collect(_) => "collect",
        Op::Cbor => "CBOR round trip",
        Op::Candid => "Candid round trip",
        Op::New(_) => "new",
    }
}

fn run<T: Elem>(ctx: &mut Ctx, r: &mut Rng) -> R {
    let big = !ctx.small && r.chance(1, if ctx.tier == Tier::Quick { 60 } else { 30 });
    let n = if ctx.small { r.range(2, 12) } else { r.range(3, 40) };
    let ops: Vec<Op<T>> = (0..n).map(|_| gen_op(r, big)).collect();
    ctx.sample(|| format!("Seq<{}>: {:?}", T::NAME, &ops[..ops.len().min(8)]));
    let qs = r.u64();
    run_shrunk(ops, &format!("Seq<{}>", T::NAME), |ops| {
        let mut q = Rng::new(qs);
        let mut s = Seq::<T>::new();
        let mut m: Vec<T> = vec![];
        judge(ctx, &mut q, 0, "new", &s, &m)?;
        for (i, op) in ops.iter().enumerate() {
            ctx.count(name(op), 1);
            match op.clone() {
                Op::Append(x) => {
                    m.push(x.clone());
                    s.append(x);
                }
                Op::Extend(xs, how) => {
                    m.extend(xs.iter().cloned());
                    match how {
                        0 => s.extend(xs),
                        1 => s.extend(xs.into_iter().filter(|_| true)),
                        2 => {
                            let (a, b) = xs.split_at(xs.len() / 2);
                            s.extend(a.iter().cloned().chain(b.iter().cloned()));
                        }
                        4.. => s.extend(hinted(xs, how as usize - 4)),
                        _ => {
                            let mut it = xs.into_iter();
                            s.extend(std::iter::from_fn(move || it.next()));
                        }
                    }
                }
                Op::ExtendRefs(xs) => {
                    m.extend(xs.iter().cloned());
                    T::extend_refs(&mut s, &xs);
                }
                Op::Clear => {
                    m.clear();
                    s.clear();
                }
                Op::Reserve(n, k) => {
                    if k == 0 {
                        s.reserve(n)
                    } else {
                        s.reserve_exact(n)
                    }
                    ensure!(s.capacity() >= m.len() + n, "reserve({}) left the capacity at {} with {} items", n, s.capacity(), m.len());
                }
                Op::Shrink => s.shrink_to_fit(),
                Op::CloneKeep => {
                    let mut c = s.clone();
                    judge(ctx, &mut q, i, "clone", &c, &m)?;
                    // The clone's life is its own.
                    c.append(T::dflt());
                    let mut cm = m.clone();
                    cm.push(T::dflt());
                    judge(ctx, &mut q, i, "append to the clone", &c, &cm)?;
                }
                Op::CloneSwap(x) => {
                    let c = s.clone();
                    s.append(x);
                    s = c;
                }
                Op::FromVec => s = Seq::from(m.clone()),
                Op::ThroughVec => {
                    let v: Vec<T> = Vec::from(s);
                    ensure!(v == m, "into Vec gives {:?}", v);
                    s = Seq::from(v);
                }
                Op::FromSlice => s = Seq::from(&m[..]),
                Op::FromMutSlice => s = Seq::from(&mut m[..]),
                Op::Collect(h) => s = hinted(m.clone(), h).collect(),
                Op::Cbor if !T::CBOR => {}
                Op::Cbor => {
                    let e = serde_cbor::to_vec(&s).unwrap();
                    ensure!(e == serde_cbor::to_vec(&m).unwrap(), "the CBOR encoding is not that of the list");
                    s = match serde_cbor::from_slice(&e) {
                        Ok(s) => s,
                        Err(e) => crate::fail!("own CBOR encoding does not decode: {}", e),
                    };
                }
                Op::Candid => {
                    let e = candid::encode_one(&s).unwrap();
                    ensure!(e == candid::encode_one(&m).unwrap(), "the Candid encoding is not that of the list");
                    s = match candid::decode_one(&e) {
                        Ok(s) => s,
                        Err(e) => crate::fail!("own Candid encoding does not decode: {}", e),
                    };
                }
                Op::New(k) => {
                    m.clear();
                    s = match k {
                        0 => Seq::new(),
                        1 => Seq::with_capacity(20),
                        _ => Seq::from(vec![]),
                    };
                }
            }
            judge(ctx, &mut q, i, name(op), &s, &m)?;
        }
        Ok(())
    })
}

pub fn c12(ctx: &mut Ctx, r: &mut Rng) -> R {
    match r.below(10) {
        0 => run::<u32>(ctx, r),
        1 => run::<String>(ctx, r),
        2 => run::<Vec<u8>>(ctx, r),
        3 => run::<bool>(ctx, r),
        4 => run::<u64>(ctx, r),
        5 => run::<Principal>(ctx, r),
        6 => run::<Nat>(ctx, r),
        7 => run::<Seq<u16>>(ctx, r),
        8 => run::<u8>(ctx, r),
        _ => run::<Box<u32>>(ctx, r),
    }
}
