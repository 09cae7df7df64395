//! C14: encodings of collections, and collections from encodings.

use crate::hist::*;
use crate::kinds::{pool, Comp, Key, Val};
use crate::mapchk::{committed, describe, dictionary, iterate, judge, judge_all, Judge};
use crate::paged;
use crate::report::{caught, Caught, Ctx, Fail, R};
use crate::seqc::{self, Elem};
use crate::util::{clip, hex, Rng, Sig};
use crate::wit::{gen_ask, View};
use crate::{ensure, fail};
use candid::{CandidType, Nat, Principal};
use certified_vars::{AsHashTree, Map, Paged, Seq};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub trait Wire: Serialize + DeserializeOwned + CandidType {}
impl<T: Serialize + DeserializeOwned + CandidType> Wire for T {}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fmt {
    Cbor,
    Candid,
}
pub const FMTS: [Fmt; 2] = [Fmt::Cbor, Fmt::Candid];

pub fn enc<T: Serialize + CandidType>(f: Fmt, x: &T) -> Result<Vec<u8>, String> {
    match f {
        Fmt::Cbor => serde_cbor::to_vec(x).map_err(|e| e.to_string()),
        Fmt::Candid => candid::encode_one(x).map_err(|e| e.to_string()),
    }
}

pub fn dec<T: Wire>(f: Fmt, b: &[u8]) -> Result<T, String> {
    match f {
        Fmt::Cbor => serde_cbor::from_slice(b).map_err(|e| e.to_string()),
        Fmt::Candid => candid::decode_one(b).map_err(|e| e.to_string()),
    }
}

/// Decode with the plain type; `None` if even that decoder panics.
fn plain<T: Wire>(f: Fmt, b: &[u8]) -> Option<Result<T, String>> {
    caught(|| dec::<T>(f, b)).ok()
}

/// Decode a collection from any bytes: an error or a value, never a panic.
fn subject<T: Wire>(f: Fmt, b: &[u8]) -> R<Result<T, String>> {
    match caught(|| dec::<T>(f, b)) {
        Ok(x) => Ok(x),
        Err(Caught::Subject(s)) => fail!("decoding {:?} bytes {} panicked: {}", f, clip(hex(b), 600), s),
        Err(Caught::Injected(_)) => unreachable!(),
        Err(Caught::Harness(s)) => {
            eprintln!("HARNESS-ERROR {}", s);
            std::process::exit(2)
        }
    }
}

fn encoded<A: Serialize + CandidType, P: Wire + PartialEq>(ctx: &mut Ctx, f: Fmt, what: &str, a: &A, p: &P) -> R<Option<Vec<u8>>> {
    let want = match enc(f, p) {
        Ok(b) => b,
        Err(_) => {
            ctx.count("encodings the plain type does not have either", 1);
            return Ok(None);
        }
    };
    let got = match enc(f, a) {
        Ok(b) => b,
        Err(e) => fail!("{} does not encode as {:?}: {}", what, f, e),
    };
    ensure!(got == want, "{} encodes as {:?} {}, the plain type as {}", what, f, clip(hex(&got), 600), clip(hex(&want), 600));
    ctx.count(if f == Fmt::Cbor { "CBOR encodings compared" } else { "Candid encodings compared" }, 1);
    // Types that do not survive a round trip by themselves are not at issue.
    match plain::<P>(f, &want) {
        Some(Ok(back)) if back == *p => Ok(Some(want)),
        _ => {
            ctx.count("encodings the plain type does not decode either", 1);
            Ok(None)
        }
    }
}

/// Bytes near a valid encoding.
fn mutate(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    let at = |r: &mut Rng, n: usize| {
        // Headers matter most.
        if r.chance(1, 3) {
            r.below(n.min(8).max(1))
        } else {
            r.below(n.max(1))
        }
    };
    for _ in 0..r.range(1, 3) {
        let n = v.len();
        match r.below(9) {
            0 => v.truncate(r.below(n + 1)),
            1 if n > 0 => {
                let i = at(r, n);
                v[i] ^= 1 << r.below(8);
            }
            2 if n > 0 => {
                let i = at(r, n);
                v[i] = r.u64() as u8;
            }
            3 if n > 0 => {
                let i = at(r, n);
                v.remove(i);
            }
            4 => {
                let i = at(r, n + 1).min(n);
                v.insert(i, r.u64() as u8);
            }
            5 if n > 0 => {
                let i = at(r, n);
                v[i] = v[i].wrapping_add(*r.pick(&[1u8, 0xff]));
            }
            6 if n > 1 => {
                // Repeat a stretch.
                let i = r.below(n);
                let j = (i + r.range(1, 12)).min(n);
                let s = v[i..j].to_vec();
                let at = r.below(n);
                v.splice(at..at, s);
            }
            7 if n > 1 => {
                let i = r.below(n);
                let j = (i + r.range(1, 12)).min(n);
                v.drain(i..j);
            }
            _ => v.push(*r.pick(&[0u8, 0xff, 0x80, 0xa0])),
        }
    }
    v
}

fn cbor_head(major: u8, n: u64, out: &mut Vec<u8>) {
    let m = major << 5;
    match n {
        0..=23 => out.push(m | n as u8),
        24..=0xff => out.extend_from_slice(&[m | 24, n as u8]),
        0x100..=0xffff => {
            out.push(m | 25);
            out.extend_from_slice(&(n as u16).to_be_bytes())
        }
        0x1_0000..=0xffff_ffff => {
            out.push(m | 26);
            out.extend_from_slice(&(n as u32).to_be_bytes())
        }
        _ => {
            out.push(m | 27);
            out.extend_from_slice(&n.to_be_bytes())
        }
    }
}

/// A CBOR map with the entries as given.
fn cbor_map(entries: &[(Vec<u8>, Vec<u8>)], indefinite: bool, claim: Option<u64>) -> Vec<u8> {
    let mut out = vec![];
    if indefinite {
        out.push(0xbf);
    } else {
        cbor_head(5, claim.unwrap_or(entries.len() as u64), &mut out);
    }
    for (k, v) in entries {
        out.extend_from_slice(k);
        out.extend_from_slice(v);
    }
    if indefinite {
        out.push(0xff);
    }
    out
}

fn some_ops<K: Key, V: Val>(r: &mut Rng, keys: &[K], n: usize) -> Vec<Op<K, V>> {
    (0..n)
        .map(|_| match r.below(3) {
            0 => exotic::<K, V>(r, keys),
            1 => Op::Insert(r.pick(keys).clone(), V::gen(r)),
            _ => Op::Remove(r.pick(keys).clone()),
        })
        .collect()
}

/// A decoded map is a map holding `m`, now and later.
fn sound_map<K: Key + Wire, V: Val + Wire>(ctx: &mut Ctx, r: &mut Rng, mut s: Map<K, V>, m: &BTreeMap<K, V>, keys: &[K], deep: bool) -> R {
    let mut m = m.clone();
    let now = |ctx: &mut Ctx, r: &mut Rng, s: &Map<K, V>, m: &BTreeMap<K, V>| -> R {
        ensure!(s.len() == m.len() && s.is_empty() == m.is_empty(), "its length is {}, it should hold {} entries", s.len(), m.len());
        iterate(s.iter(), m)?;
        committed(ctx, &s.root_hash(), &s.as_hash_tree(), &View::of(m))?;
        dictionary(ctx, r, 0, &Op::Clear, s.as_tree(), m, keys)?;
        for j in [Judge::Hash, Judge::KeyProof, Judge::Complete, Judge::Minimal] {
            let kinds: &[usize] = if j == Judge::KeyProof { &[0, 1] } else { &[0, 2, 3, 4, 6, 8] };
            let asks: Vec<_> = (0..2)
                .filter_map(|_| {
                    let k = *r.pick(kinds);
                    if j == Judge::Complete && k < 3 || (k == 8 && !K::PREFIX) {
                        return None;
                    }
                    Some(gen_ask(r, keys, k))
                })
                .collect();
            judge_all(ctx, j, s, m, &asks, false)?;
        }
        Ok(())
    };
    now(ctx, r, &s, &m)?;
    if deep {
        let n = r.range(1, 12);
        for (i, op) in some_ops::<K, V>(r, keys, n).into_iter().enumerate() {
            let tag = |f: Fail| Fail(format!("after change {} {:?}: {}", i, op, f.0));
            let got = s.apply(op.clone());
            let want = model(&mut m, &op);
            ensure!(got == want, "change {} {:?} returned {:?}, a dictionary returns {:?}", i, op, got, want);
            if r.chance(1, 2) {
                now(ctx, r, &s, &m).map_err(tag)?;
            }
        }
        now(ctx, r, &s, &m).map_err(|f| Fail(format!("after changes: {}", f.0)))?;
        for f in FMTS {
            encoded(ctx, f, "the decoded and changed map", &s, &m)?;
        }
    }
    Ok(())
}

fn map_seen<K: Key, V: Val>(ctx: &mut Ctx, what: &str, b: &[u8], n: usize) {
    let mut s = Sig::new();
    s.add(what.as_bytes());
    s.add(b);
    if n >= 2 {
        ctx.seen(s.0);
    } else {
        ctx.trivial();
    }
    ctx.count(what, 1);
}

fn maps<K: Key + Wire, V: Val + Wire>(ctx: &mut Ctx, r: &mut Rng) -> R {
    let sh = shape(r, if ctx.small { 6 } else { 300 });
    let (keys, ops) = history::<K, V>(r, sh);
    let what = describe::<K, V>("Map");
    ctx.sample(|| format!("{}: {} operations over {} keys, starting {:?}", what, ops.len(), keys.len(), &ops[..ops.len().min(4)]));
    let qseed = r.u64();
    run_shrunk(ops, &what, |ops| {
        let mut q = Rng::new(qseed);
        let q = &mut q;
        let total = ops.len();
        drive::<K, V, Map<K, V>>(ops, |i, _, s, m, _, _| {
            if i + 1 != total && !q.chance(1, 12) {
                return Ok(());
            }
            for f in FMTS {
                let tag = |r: R| r.map_err(|e| Fail(format!("after step {}, decoded from its {:?} encoding: {}", i, f, e.0)));
                let Some(b) = encoded(ctx, f, "the map", s, m)? else { continue };
                let d: Map<K, V> = match subject(f, &b)? {
                    Ok(d) => d,
                    Err(e) => fail!("own {:?} encoding {} does not decode: {}", f, clip(hex(&b), 600), e),
                };
                tag(sound_map(ctx, q, d, m, &keys, true))?;
                map_seen::<K, V>(ctx, "maps decoded from their encodings", &b, m.len());
            }
            Ok(())
        })
    })?;
    let list: Vec<(K, V)> = (0..r.range(0, if ctx.small { 5 } else { 14 })).map(|_| (r.pick(&keys).clone(), V::gen(r))).collect();
    let qseed = r.u64();
    run_shrunk(list, &what, |list| lists::<K, V>(ctx, &mut Rng::new(qseed), list, &keys))
}

/// Entries in any order and repeated; and bytes near their encodings.
fn lists<K: Key + Wire, V: Val + Wire>(ctx: &mut Ctx, r: &mut Rng, list: &[(K, V)], keys: &[K]) -> R {
    let m: BTreeMap<K, V> = list.iter().cloned().collect();
    let cbor: Result<Vec<(Vec<u8>, Vec<u8>)>, _> = list.iter().map(|(k, v)| Ok::<_, serde_cbor::Error>((serde_cbor::to_vec(k)?, serde_cbor::to_vec(v)?))).collect();
    let mut bases = vec![];
    if let Ok(es) = &cbor {
        bases.push((Fmt::Cbor, cbor_map(es, false, None)));
        bases.push((Fmt::Cbor, cbor_map(es, true, None)));
        let claim = *r.pick(&[es.len() as u64 + 1, es.len() as u64 + 1000, 1 << 32, 1 << 62, u64::MAX]);
        bases.push((Fmt::Cbor, cbor_map(es, false, Some(claim))));
    }
    if let Ok(b) = enc(Fmt::Candid, &list.to_vec()) {
        bases.push((Fmt::Candid, b));
    }
    for (i, (f, b)) in bases.iter().enumerate() {
        if crate::report::late() {
            break;
        }
        let f = *f;
        if i != 2 {
            let Some(Ok(p)) = plain::<BTreeMap<K, V>>(f, b) else { continue };
            if p != m {
                continue;
            }
            let d: Map<K, V> = match subject(f, b)? {
                Ok(d) => d,
                // Whether indefinite lengths decode is for the format.
                Err(_) if i == 1 && f == Fmt::Cbor => continue,
                Err(e) => fail!("the {:?} encoding {} of entries {:?} does not decode: {}", f, clip(hex(b), 600), list, e),
            };
            sound_map(ctx, r, d, &m, keys, true).map_err(|e| Fail(format!("decoded from {:?} {}: {}", f, clip(hex(b), 600), e.0)))?;
            map_seen::<K, V>(ctx, "maps decoded from entries in any order", b, m.len());
        } else {
            let d: Result<Map<K, V>, String> = subject(f, b)?;
            ensure!(d.is_err(), "a truncated CBOR map decodes");
        }
        for j in 0..if ctx.small { 2 } else { 6 } {
            // Every truncation point gets its turn over the run.
            let x = if j == 0 { b[..r.below(b.len())].to_vec() } else { mutate(r, b) };
            let Some(p) = plain::<BTreeMap<K, V>>(f, &x) else { continue };
            let d: Result<Map<K, V>, String> = subject(f, &x)?;
            match (d, p) {
                (Ok(d), Ok(p)) => {
                    let mut ks: Vec<K> = p.keys().cloned().collect();
                    ks.extend(keys.iter().cloned());
                    sound_map(ctx, r, d, &p, &ks, j == 1).map_err(|e| Fail(format!("decoded from damaged {:?} {}: {}", f, clip(hex(&x), 600), e.0)))?;
                    map_seen::<K, V>(ctx, "maps decoded from damaged bytes", &x, p.len());
                }
                (Ok(d), Err(e)) => {
                    // More than the plain dictionary accepts; it has to be a
                    // consistent map all the same.
                    let n = d.iter().count();
                    ensure!(n == d.len(), "a map decoded from {:?} {} (which a dictionary refuses: {}) has length {} and {} entries", f, clip(hex(&x), 600), e, d.len(), n);
                    let p: BTreeMap<K, V> = d.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                    sound_map(ctx, r, d, &p, keys, true)?;
                    ctx.count("maps decoded where a dictionary does not decode", 1);
                }
                (Err(_), _) => map_seen::<K, V>(ctx, "damaged maps refused", &x, 2),
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- sequences

fn sound_seq<T: Elem>(ctx: &mut Ctx, r: &mut Rng, mut s: Seq<T>, m: &[T]) -> R {
    seqc::judge(ctx, r, 0, "decoding", &s, m)?;
    let mut m = m.to_vec();
    for i in 0..r.below(4) {
        let x = T::gen(r);
        m.push(x.clone());
        if i % 2 == 0 {
            s.append(x);
        } else {
            s.extend(Some(x));
        }
    }
    seqc::judge(ctx, r, 0, "appending to the decoded sequence", &s, &m)?;
    for f in FMTS {
        encoded(ctx, f, "the decoded and extended sequence", &s, &m)?;
    }
    Ok(())
}

fn seqs<T: Elem>(ctx: &mut Ctx, r: &mut Rng) -> R {
    let n = match r.below(6) {
        0 => 0,
        1 if !ctx.small => r.range(20, 30),
        2 if !ctx.small => r.range(200, 300),
        _ => r.range(1, 8),
    };
    let list: Vec<T> = (0..n).map(|_| T::gen(r)).collect();
    ctx.sample(|| format!("Seq<{}> of {} items: {:?}", T::NAME, list.len(), &list[..list.len().min(6)]));
    let qseed = r.u64();
    run_shrunk(list, &format!("Seq<{}>", T::NAME), |list| {
        let r = &mut Rng::new(qseed);
        let list = list.to_vec();
        let s: Seq<T> = list.iter().cloned().collect();
        for f in FMTS {
            let Some(b) = encoded(ctx, f, "the sequence", &s, &list)? else { continue };
            let d: Seq<T> = match subject(f, &b)? {
                Ok(d) => d,
                Err(e) => fail!("own {:?} encoding {} does not decode: {}", f, clip(hex(&b), 600), e),
            };
            ensure!(d.root_hash() == s.root_hash() && d == s, "decoded from {:?}, the sequence differs from the one encoded", f);
            sound_seq(ctx, r, d, &list).map_err(|e| Fail(format!("decoded from {:?} {}: {}", f, clip(hex(&b), 600), e.0)))?;
            map_seen::<u8, u8>(ctx, "sequences decoded from their encodings", &b, list.len());
            for j in 0..if ctx.small { 2 } else { 8 } {
                let x = if j == 0 { b[..r.below(b.len())].to_vec() } else { mutate(r, &b) };
                let Some(p) = plain::<Vec<T>>(f, &x) else { continue };
                let d: Result<Seq<T>, String> = subject(f, &x)?;
                match (d, p) {
                    (Ok(d), Ok(p)) => {
                        sound_seq(ctx, r, d, &p).map_err(|e| Fail(format!("decoded from damaged {:?} {}: {}", f, clip(hex(&x), 600), e.0)))?;
                        map_seen::<u8, u8>(ctx, "sequences decoded from damaged bytes", &x, p.len());
                    }
                    (Ok(d), Err(_)) => {
                        let p = d.as_vec().clone();
                        sound_seq(ctx, r, d, &p)?;
                    }
                    (Err(_), _) => map_seen::<u8, u8>(ctx, "damaged sequences refused", &x, 2),
                }
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- pages

#[derive(Serialize, Deserialize, CandidType, PartialEq, Eq, PartialOrd, Ord, Clone, Debug)]
struct PlainKey<K> {
    key: K,
    page: u32,
}
#[derive(Serialize, Deserialize, CandidType, PartialEq, Clone, Debug)]
struct PlainPaged<K: Ord, V> {
    data: BTreeMap<PlainKey<K>, Vec<V>>,
}

fn plain_pages<K: Key, V: Val>(m: &paged::Model<K, V>, size: usize) -> PlainPaged<K, V> {
    let mut data = BTreeMap::new();
    for (k, xs) in m {
        for (i, p) in paged::pages(xs, size).into_iter().enumerate() {
            data.insert(PlainKey { key: k.clone(), page: i as u32 }, p.to_vec());
        }
    }
    PlainPaged { data }
}

fn paged_now<K: Key + Wire, V: Elem, const S: usize>(ctx: &mut Ctx, r: &mut Rng, p: &Paged<K, V, S>, m: &paged::Model<K, V>, keys: &[K]) -> R {
    for k in keys {
        paged::layout(ctx, p, m, k, true, r)?;
    }
    let v = paged::view(m, S);
    committed(ctx, &p.root_hash(), &p.as_hash_tree(), &v)?;
    for _ in 0..3 {
        let (d, rq, w) = paged::ask(p, m, r, keys);
        for j in [Judge::Hash, Judge::KeyProof, Judge::Minimal] {
            judge(ctx, j, &p.root_hash(), &v, &rq, &w).map_err(|f| Fail(format!("{}: {}", d, f.0)))?;
        }
    }
    Ok(())
}

fn pageds<K: Key + Wire, V: Elem, const S: usize>(ctx: &mut Ctx, r: &mut Rng) -> R {
    let n = r.range(1, 6);
    let keys: Vec<K> = pool(r, n);
    let mut ops: Vec<(usize, V)> = paged::insertions(ctx, r, &keys, S);
    ops.truncate(if ctx.small { 6 } else { 150 });
    let what = format!("Paged<{}, {}, {}> with keys {:?}", K::NAME, V::NAME, S, keys);
    let qseed = r.u64();
    run_shrunk(ops, &what, |ops| {
        let r = &mut Rng::new(qseed);
        let mut p = Paged::<K, V, S>::new();
        let mut m: paged::Model<K, V> = BTreeMap::new();
        let cut = r.below(ops.len() + 1);
        for (k, v) in &ops[..cut] {
            p.insert(keys[*k].clone(), v.clone());
            m.entry(keys[*k].clone()).or_default().push(v.clone());
        }
        let pl = plain_pages(&m, S);
        for f in FMTS {
            let Some(b) = encoded(ctx, f, "the paged collection", &p, &pl)? else { continue };
            let mut d: Paged<K, V, S> = match subject(f, &b)? {
                Ok(d) => d,
                Err(e) => fail!("own {:?} encoding {} does not decode: {}", f, clip(hex(&b), 600), e),
            };
            let tag = |e: Fail| Fail(format!("decoded from {:?} {}: {}", f, clip(hex(&b), 600), e.0));
            paged_now(ctx, r, &d, &m, &keys).map_err(tag)?;
            // Its life goes on.
            let mut m2 = m.clone();
            for (k, v) in &ops[cut..] {
                d.insert(keys[*k].clone(), v.clone());
                m2.entry(keys[*k].clone()).or_default().push(v.clone());
                if r.chance(1, 8) {
                    paged_now(ctx, r, &d, &m2, &keys).map_err(tag)?;
                }
            }
            paged_now(ctx, r, &d, &m2, &keys).map_err(tag)?;
            encoded(ctx, f, "the decoded and extended paged collection", &d, &plain_pages(&m2, S))?;
            map_seen::<u8, u8>(ctx, "paged collections decoded from their encodings", &b, ops.len());
            for j in 0..if ctx.small { 2 } else { 6 } {
                let x = if j == 0 { b[..r.below(b.len())].to_vec() } else { mutate(r, &b) };
                let Some(p) = plain::<PlainPaged<K, V>>(f, &x) else { continue };
                let d: Result<Paged<K, V, S>, String> = subject(f, &x)?;
                match (d, p) {
                    (Ok(d), Ok(p)) => {
                        let mut v = View { labels: vec![], vals: vec![], byte_ordered: K::BYTE_ORDERED && K::FIXED };
                        for (k, items) in &p.data {
                            v.labels.push(paged::label(&k.key, k.page));
                            v.vals.push(paged::page_tree(items));
                            let got = d.get(&k.key, k.page as usize).map(|s| &s.as_vec()[..]);
                            ensure!(got == Some(&items[..]), "decoded from damaged {:?} {}: page {:?} is {:?}", f, clip(hex(&x), 600), k, got);
                        }
                        committed(ctx, &d.root_hash(), &d.as_hash_tree(), &v).map_err(|e| Fail(format!("decoded from damaged {:?} {}: {}", f, clip(hex(&x), 600), e.0)))?;
                        map_seen::<u8, u8>(ctx, "paged collections decoded from damaged bytes", &x, p.data.len());
                    }
                    (Ok(d), Err(_)) => {
                        let t = crate::tree::from(&d.as_hash_tree());
                        ensure!(t.hash() == d.root_hash(), "a paged collection decoded from {:?} {} has a root hash that is not its full tree's", f, clip(hex(&x), 600));
                    }
                    (Err(_), _) => map_seen::<u8, u8>(ctx, "damaged paged collections refused", &x, 2),
                }
            }
        }
        Ok(())
    })
}

/// One format, for a map in some state, without its history.
pub fn round<K: Key + Wire, V: Val + Wire>(ctx: &mut Ctx, r: &mut Rng, f: Fmt, s: &Map<K, V>, m: &BTreeMap<K, V>) -> R {
    let Some(b) = encoded(ctx, f, "the map", s, m)? else { return Ok(()) };
    let mut d: Map<K, V> = match subject(f, &b)? {
        Ok(d) => d,
        Err(e) => fail!("own {:?} encoding of {} entries does not decode: {}", f, m.len(), e),
    };
    iterate(d.iter(), m)?;
    committed(ctx, &d.root_hash(), &d.as_hash_tree(), &View::of(m))?;
    let mut m = m.clone();
    let keys: Vec<K> = m.keys().cloned().collect();
    for _ in 0..if keys.is_empty() { 0 } else { 50 } {
        let k = r.pick(&keys);
        ensure!(d.remove(k) == m.remove(k), "remove({:?}) on a decoded map differs", k);
        let (k, v) = (r.pick(&keys).clone(), V::gen(r));
        ensure!(d.insert(k.clone(), v.clone()) == m.insert(k, v), "insert on a decoded map differs");
    }
    committed(ctx, &d.root_hash(), &d.as_hash_tree(), &View::of(&m))?;
    ctx.count("large maps encoded and decoded", 1);
    Ok(())
}

/// Several collections in one Candid message, as upgrades store them.
fn together(ctx: &mut Ctx, r: &mut Rng) -> R {
    let n = r.below(20);
    let a: BTreeMap<String, u64> = (0..n).map(|i| (<String as Key>::gen(r, 4, i), r.u64())).collect();
    let b: Vec<u32> = (0..r.below(9)).map(|_| r.u64() as u32).collect();
    let c: BTreeMap<u32, Vec<String>> = (0..r.below(5)).map(|i| (i as u32, (0..r.below(4)).map(|_| <String as Val>::gen(r)).collect())).collect();
    let ma: Map<String, u64> = a.iter().map(|(k, v)| (k.clone(), *v)).collect();
    let sb: Seq<u32> = b.iter().copied().collect();
    let mc: Map<u32, Seq<String>> = c.iter().map(|(k, v)| (*k, v.iter().cloned().collect())).collect();
    let want = candid::encode_args((&a, &b, &c, &a)).unwrap();
    let got = candid::encode_args((&ma, &sb, &mc, &ma)).unwrap();
    ensure!(got == want, "four collections in one message encode differently from the plain types: {} and {}", clip(hex(&got), 800), clip(hex(&want), 800));
    let (da, db, dc, de): (Map<String, u64>, Seq<u32>, Map<u32, Seq<String>>, Map<String, u64>) = match candid::decode_args(&got) {
        Ok(x) => x,
        Err(e) => fail!("a message of four collections does not decode: {}", e),
    };
    ensure!(da.iter().eq(a.iter()) && de.iter().eq(a.iter()), "a map in a message decodes differently");
    ensure!(db.root_hash() == sb.root_hash() && db.as_vec() == &b, "a sequence in a message decodes differently");
    ensure!(dc.iter().map(|(k, v)| (*k, v.as_vec().clone())).eq(c.iter().map(|(k, v)| (*k, v.clone()))), "a map of sequences in a message decodes differently");
    committed(ctx, &da.root_hash(), &da.as_hash_tree(), &View::of(&a))?;
    map_seen::<u8, u8>(ctx, "messages of several collections", &got, 2);
    Ok(())
}

pub fn c14(ctx: &mut Ctx, r: &mut Rng) -> R {
    match r.below(36) {
        0 => maps::<Vec<u8>, Vec<u8>>(ctx, r),
        1 | 20 => maps::<String, String>(ctx, r),
        2 | 21 => maps::<u8, u64>(ctx, r),
        3 => maps::<u32, bool>(ctx, r),
        4 => maps::<u16, Seq<u16>>(ctx, r),
        5 => maps::<Principal, u64>(ctx, r),
        6 => maps::<Comp, u64>(ctx, r),
        7 => maps::<i16, Vec<u8>>(ctx, r),
        8 => maps::<u64, Principal>(ctx, r),
        9 => maps::<bool, u8>(ctx, r),
        10 => maps::<u32, Nat>(ctx, r),
        11 => maps::<String, Seq<u16>>(ctx, r),
        12 => maps::<i64, Box<u32>>(ctx, r),
        13 => seqs::<u32>(ctx, r),
        14 => seqs::<String>(ctx, r),
        15 => seqs::<Vec<u8>>(ctx, r),
        16 => seqs::<bool>(ctx, r),
        17 => seqs::<u64>(ctx, r),
        18 => seqs::<Principal>(ctx, r),
        19 => seqs::<Nat>(ctx, r),
        22 => seqs::<Seq<u16>>(ctx, r),
        23 => seqs::<u8>(ctx, r),
        24 => seqs::<Box<u32>>(ctx, r),
        25 => pageds::<u8, u32, 1>(ctx, r),
        26 => pageds::<String, u32, 2>(ctx, r),
        27 => pageds::<u32, String, 3>(ctx, r),
        28 => pageds::<i16, Vec<u8>, 4>(ctx, r),
        29 => pageds::<Comp, u64, 2>(ctx, r),
        30 => pageds::<u64, bool, 10>(ctx, r),
        31 => pageds::<Vec<u8>, u8, 3>(ctx, r),
        32 => pageds::<Principal, Nat, 2>(ctx, r),
        33 => together(ctx, r),
        34 => maps::<u64, u8>(ctx, r),
        _ => maps::<Vec<u8>, u32>(ctx, r),
    }
}
