//! Collections far larger than random histories make them: across the sizes
//! at which counters of one and two bytes, small buffers and shallow recursion
//! would end. Few cases, each driven through its whole life.

use crate::cost;
use crate::hist::*;
use crate::kinds::{Key, Val};
use crate::mapchk::{committed, describe, dictionary, iterate, judge, Judge};
use crate::report::{Ctx, Fail, R};
use crate::seqc::{self, Elem};
use crate::ser::{self, Wire};
use crate::util::{clip, Rng};
use crate::wit::{ask_map, gen_ask, req, View};
use crate::ensure;
use certified_vars::{AsHashTree, Map, Seq};
use std::collections::BTreeMap;

/// Whether this case is one of them, and how large.
pub fn size(ctx: &Ctx, r: &mut Rng, case: u64) -> Option<usize> {
    if ctx.small || !ctx.huge || cfg!(miri) {
        return None;
    }
    match case {
        5 => Some(r.range(65_537, 66_200)),
        c if c % 150 == 23 => Some(match r.below(6) {
            0 => r.range(250, 270),
            1 => r.range(1000, 1100),
            2 => r.range(4000, 4200),
            3 => r.range(8000, 8300),
            _ => r.range(257, 3000),
        }),
        c if c % 9000 == 1001 => Some(r.range(65_537, 100_000)),
        _ => None,
    }
}

fn mark(n: usize) -> bool {
    [255, 256, 257, 1024, 4096, 65_535, 65_536, 65_537].contains(&n)
}

/// 0..n in some order.
pub fn order(r: &mut Rng, n: usize) -> Vec<u32> {
    let mut v: Vec<u32> = (0..n as u32).collect();
    match r.below(6) {
        0 => {}
        1 => v.reverse(),
        2 => v = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 } as u32).collect(),
        3 => v = (0..n as u32).filter(|i| i % 2 == 0).chain((0..n as u32).filter(|i| i % 2 == 1)).collect(),
        _ => r.shuffle(&mut v),
    }
    v
}

fn look<K: Key + Wire, V: Val + Wire>(ctx: &mut Ctx, r: &mut Rng, prop: &str, s: &Map<K, V>, m: &BTreeMap<K, V>, some: &[K]) -> R {
    ensure!(s.len() == m.len() && s.is_empty() == m.is_empty(), "{} entries, should be {}", s.len(), m.len());
    match prop {
        "C01" => {
            for i in 0..20 {
                dictionary(ctx, r, i, &Op::EntryDrop(some[0].clone()), s.as_tree(), m, some)?;
            }
            iterate(s.iter(), m)?;
        }
        "C02" => committed(ctx, &s.root_hash(), &s.as_hash_tree(), &View::of(m))?,
        "C14" => {
            for f in ser::FMTS {
                ser::round(ctx, r, f, s, m)?;
            }
        }
        _ => {
            let js: &[(Judge, &[usize])] = match prop {
                "C03" => &[(Judge::Hash, &[0, 1, 2, 3, 4, 5, 6, 7, 8])],
                "C04" => &[(Judge::KeyProof, &[0, 1, 0, 2])],
                "C05" => &[(Judge::Complete, &[3, 4, 5, 6, 7, 8, 8])],
                _ => &[(Judge::Minimal, &[0, 1, 2, 3, 4, 5, 6, 7, 8])],
            };
            let v = View::of(m);
            let keys: Vec<&K> = m.keys().collect();
            for (j, kinds) in js {
                for k in kinds.iter() {
                    let a = gen_ask(r, some, *k);
                    let w = ask_map(s, &a);
                    let q = req(m, &keys, &a);
                    judge(ctx, *j, &s.root_hash(), &v, &q, &w)?;
                }
            }
        }
    }
    Ok(())
}

fn map<K: Key + Wire, V: Val + Wire>(ctx: &mut Ctx, r: &mut Rng, n: usize, mk: fn(u32) -> K) -> R {
    let prop = ctx.prop.clone();
    let what = format!("{} of {} entries", describe::<K, V>("Map"), n);
    let mut s = Map::<K, V>::new();
    let mut m: BTreeMap<K, V> = BTreeMap::new();
    // Every other key is never there.
    let some: Vec<K> = {
        let mut v: Vec<K> = (0..120).map(|_| mk(r.below(2 * n + 1) as u32)).chain([mk(0), mk(1), mk(2 * n as u32 - 2), mk(2 * n as u32 - 1)]).collect();
        v.sort();
        v.dedup();
        v
    };
    let mut go = || -> R {
        let looks = !matches!(&prop[..], "C14") || n < 5000;
        for i in order(r, n) {
            let k = mk(2 * i);
            let x = V::gen(r);
            let op = if r.chance(1, 20) { Op::VacInsert(k, V::gen(r), Some(x)) } else { Op::Insert(k, x) };
            let got = s.apply(op.clone());
            let want = model(&mut m, &op);
            ensure!(got == want, "{:?} of {} entries gives {:?}, should give {:?}", op, m.len(), got, want);
            if mark(m.len()) && looks {
                look(ctx, r, &prop, &s, &m, &some)?;
            }
        }
        look(ctx, r, &prop, &s, &m, &some)?;
        // Changes of all kinds.
        for _ in 0..400 {
            let op = exotic::<K, V>(r, &some);
            if matches!(op, Op::Clear | Op::Bulk(_)) {
                continue;
            }
            let got = s.apply(op.clone());
            let want = model(&mut m, &op);
            ensure!(got == want, "{:?} on {} entries gives {:?}, should give {:?}", op, m.len(), got, want);
        }
        look(ctx, r, &prop, &s, &m, &some)?;
        if r.chance(1, 4) {
            s.clear();
            m.clear();
            return look(ctx, r, &prop, &s, &m, &some);
        }
        // Down to nothing.
        let upto = if r.chance(1, 2) { n } else { n / 2 };
        for i in order(r, n).into_iter().take(upto) {
            let k = mk(2 * i);
            let (got, want) = (s.remove(&k), m.remove(&k));
            ensure!(got == want, "remove({:?}) with {} entries left gives {:?}, should give {:?}", k, m.len(), got, want);
            if mark(m.len()) && looks {
                look(ctx, r, &prop, &s, &m, &some)?;
            }
        }
        if upto == n {
            let left: Vec<K> = m.keys().cloned().collect();
            for k in left {
                ensure!(s.remove(&k) == m.remove(&k), "remove({:?}) differs", k);
            }
        }
        look(ctx, r, &prop, &s, &m, &some)
    };
    go().map_err(|f| Fail(clip(format!("{} [{}]", f.0, what), 6000)))?;
    ctx.count("large collections", 1);
    ctx.max("entries", n as u64);
    Ok(())
}

fn seq<T: Elem + Wire>(ctx: &mut Ctx, r: &mut Rng, n: usize) -> R {
    let mut go = || -> R {
        let mut s = Seq::<T>::new();
        let mut m: Vec<T> = vec![];
        while m.len() < n {
            let k = *r.pick(&[1usize, 1, 255, 256, 257, 3000, n]);
            let k = k.min(n - m.len());
            let xs: Vec<T> = (0..k).map(|_| T::gen(r)).collect();
            m.extend(xs.iter().cloned());
            if k == 1 {
                s.append(xs.into_iter().next().unwrap());
            } else {
                s.extend(xs);
            }
            if mark(m.len()) {
                seqc::judge(ctx, r, m.len(), "extend", &s, &m)?;
            }
        }
        seqc::judge(ctx, r, n, "extend", &s, &m)?;
        let c = s.clone();
        seqc::judge(ctx, r, n, "clone", &c, &m)?;
        seqc::judge(ctx, r, n, "from Vec", &Seq::from(m.clone()), &m)?;
        seqc::judge(ctx, r, n, "from slice", &Seq::from(&m[..]), &m)?;
        seqc::judge(ctx, r, n, "collect", &m.iter().cloned().collect(), &m)?;
        for f in ser::FMTS {
            let b = match ser::enc(f, &m) {
                Ok(b) => b,
                Err(e) => return Err(Fail(format!("HARNESS: {}", e))),
            };
            match ser::enc(f, &s) {
                Ok(x) => ensure!(x == b, "the {:?} encoding is not that of the list", f),
                Err(e) => return Err(Fail(format!("does not encode as {:?}: {}", f, e))),
            }
            match ser::dec::<Seq<T>>(f, &b) {
                Ok(d) => seqc::judge(ctx, r, n, "decode", &d, &m)?,
                Err(e) => return Err(Fail(format!("own {:?} encoding does not decode: {}", f, e))),
            }
        }
        s.clear();
        seqc::judge(ctx, r, n, "clear", &s, &[])
    };
    go().map_err(|f| Fail(clip(format!("{} [Seq<{}> of {} items]", f.0, T::NAME, n), 6000)))?;
    ctx.count("large collections", 1);
    Ok(())
}

pub fn huge(ctx: &mut Ctx, r: &mut Rng, n: usize) -> R {
    match (&ctx.prop.clone()[..], r.below(4)) {
        ("C10", _) => cost::huge(ctx, r, n),
        ("C12", 0) => seq::<String>(ctx, r, n),
        ("C12", 1) => seq::<u64>(ctx, r, n),
        ("C12", _) => seq::<u32>(ctx, r, n),
        (_, 0) => map::<u64, u8>(ctx, r, n, |i| i as u64),
        (_, 1) => map::<String, u64>(ctx, r, n, |i| format!("{:06}", i)),
        (_, 2) => map::<Vec<u8>, bool>(ctx, r, n, |i| i.to_be_bytes()[1..].to_vec()),
        _ => map::<u32, u32>(ctx, r, n, |i| i),
    }
}
