//! C08 (value representations) and C09 (key labels).

use crate::ensure;
use crate::kinds::{gen_bytes, gen_principal, gen_text, Comp, Key, LENS};
use crate::report::{Ctx, Fail, R};
use crate::tree::{self, h_leaf, T};
use crate::util::{hex, Rng, Sig};
use candid::{Nat, Principal};
use certified_vars::label::{Label, Prefix};
use certified_vars::{AsHashTree, Paged};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::ptr::NonNull;
use std::rc::Rc;
use std::sync::Arc;

// Naturals, through decimal text, so that the big-number library's byte
// conversion is not used to judge itself.

/// Big-endian base-256 digits without leading zeros.
pub fn gen_digits(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0usize, 1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128]);
    let mut v = match r.below(4) {
        0 => vec![0u8; n],
        1 => vec![0xffu8; n],
        _ => r.bytes(n),
    };
    if let Some(x) = v.first_mut() {
        if *x == 0 {
            *x = *r.pick(&[1u8, 0x7f, 0x80, 0xff]);
        }
    }
    v
}

pub fn to_decimal(digits: &[u8]) -> String {
    let mut out = vec![0u8];
    for d in digits {
        let mut carry = *d as u32;
        for o in out.iter_mut() {
            let x = *o as u32 * 256 + carry;
            *o = (x % 10) as u8;
            carry = x / 10;
        }
        while carry > 0 {
            out.push((carry % 10) as u8);
            carry /= 10;
        }
    }
    while out.len() > 1 && *out.last().unwrap() == 0 {
        out.pop();
    }
    out.iter().rev().map(|d| (b'0' + d) as char).collect()
}

pub fn from_decimal(s: &str) -> Vec<u8> {
    let mut out: Vec<u8> = vec![];
    for c in s.bytes().filter(|c| c.is_ascii_digit()) {
        let mut carry = (c - b'0') as u32;
        for o in out.iter_mut() {
            let x = *o as u32 * 10 + carry;
            *o = x as u8;
            carry = x >> 8;
        }
        while carry > 0 {
            out.push(carry as u8);
            carry >>= 8;
        }
    }
    while out.last() == Some(&0) {
        out.pop();
    }
    out.reverse();
    out
}

pub fn nat_of(digits: &[u8]) -> Nat {
    Nat::parse(to_decimal(digits).as_bytes()).expect("decimal")
}

/// Minimal big-endian bytes; zero is one zero byte.
pub fn nat_bytes(n: &Nat) -> Vec<u8> {
    let v = from_decimal(&n.to_string());
    if v.is_empty() {
        vec![0]
    } else {
        v
    }
}

// ---------------------------------------------------------------- C08

fn value<V: AsHashTree + ?Sized>(ctx: &mut Ctx, name: &str, v: &V, bytes: &[u8]) -> R {
    let root = v.root_hash();
    let t = tree::from(&v.as_hash_tree());
    ensure!(t == T::leaf(bytes), "{}: the tree of the value with bytes {} is {:?}", name, hex(bytes), t);
    ensure!(root == h_leaf(bytes), "{}: root_hash of the value with bytes {} is {}, should be {}", name, hex(bytes), hex(&root), hex(&h_leaf(bytes)));
    ensure!(v.as_hash_tree().reconstruct() == root, "{}: root_hash differs from as_hash_tree().reconstruct()", name);
    ctx.count("values", 1);
    let mut s = Sig::new();
    s.add(name.as_bytes());
    s.num(bytes.len() as u64);
    s.add(bytes);
    ctx.seen(s.0);
    Ok(())
}

fn wrapped<V: AsHashTree + Clone + 'static>(ctx: &mut Ctx, r: &mut Rng, name: &str, v: V, bytes: &[u8]) -> R {
    value(ctx, name, &v, bytes)?;
    match r.below(6) {
        0 => value(ctx, &format!("Box<{}>", name), &Box::new(v), bytes),
        1 => value(ctx, &format!("Rc<{}>", name), &Rc::new(v), bytes),
        2 => value(ctx, &format!("Arc<{}>", name), &Arc::new(v), bytes),
        3 => {
            let mut b = v;
            value(ctx, &format!("NonNull<{}>", name), &NonNull::from(&mut b), bytes)
        }
        4 => value(ctx, &format!("Box<Rc<Arc<{}>>>", name), &Box::new(Rc::new(Arc::new(v))), bytes),
        _ => Ok(()),
    }
}

macro_rules! each_array {
    ($mac:ident) => {
        $mac!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32)
    };
}

/// Numbers of interest as raw bits.
fn bits(r: &mut Rng) -> u128 {
    match r.below(6) {
        0 => 0,
        1 => u128::MAX,
        2 => {
            let s = r.below(128);
            (1u128 << s).wrapping_add(r.below(3) as u128).wrapping_sub(1)
        }
        3 => r.below(300) as u128,
        4 => !(r.below(300) as u128),
        _ => r.u64() as u128 | (r.u64() as u128) << 64,
    }
}

fn be(x: u128, n: usize) -> Vec<u8> {
    (0..n).rev().map(|i| (x >> (8 * i)) as u8).collect()
}

pub fn c08(ctx: &mut Ctx, r: &mut Rng) -> R {
    macro_rules! num {
        ($($t:ty)*) => {$({
            let n = std::mem::size_of::<$t>();
            for _ in 0..3 {
                let x = bits(r);
                wrapped(ctx, r, stringify!($t), x as $t, &be(x, n))?;
            }
        })*};
    }
    macro_rules! arrays {
        ($($n:tt)*) => {$({
            let mut a = [0u8; $n];
            match r.below(3) {
                0 => a = [0xff; $n],
                1 => {}
                _ => { let v = r.bytes($n); a.copy_from_slice(&v) }
            }
            if r.chance(1, 2) {
                let i = r.below($n);
                a[i] ^= 1 << r.below(8);
            }
            wrapped(ctx, r, concat!("[u8; ", $n, "]"), a, &a)?;
        })*};
    }
    num!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize);
    each_array!(arrays);
    for _ in 0..6 {
        let x = bits(r) as u32;
        wrapped(ctx, r, "f32", f32::from_bits(x), &be(x as u128, 4))?;
        let f = *r.pick(&[0.0f32, -0.0, 1.0, -1.5, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, 1e-45, f32::MAX, f32::EPSILON]);
        wrapped(ctx, r, "f32", f, &be(f.to_bits() as u128, 4))?;
        let x = bits(r) as u64;
        wrapped(ctx, r, "f64", f64::from_bits(x), &be(x as u128, 8))?;
        let f = *r.pick(&[0.0f64, -0.0, 1.0, -1.5, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::EPSILON]);
        wrapped(ctx, r, "f64", f, &be(f.to_bits() as u128, 8))?;
    }
    wrapped(ctx, r, "bool", true, &[1])?;
    wrapped(ctx, r, "bool", false, &[0])?;
    for _ in 0..8 {
        let n = if r.chance(1, 30) { *r.pick(&[1000usize, 4096, 65535, 65536, 70000]) } else { *r.pick(LENS) };
        let b = match r.below(3) {
            0 => vec![0; n],
            _ => r.bytes(n),
        };
        wrapped(ctx, r, "Vec<u8>", b.clone(), &b)?;
        value(ctx, "&[u8]", &&b[..], &b)?;
        let st = r.below(5) as u32;
        let mut s = gen_text(r, st, ctx.case as usize);
        if r.chance(1, 4) {
            s = (0..n / 4).map(|_| char::from_u32(r.below(0x10ffff) as u32).unwrap_or('x')).collect();
        }
        let bytes = s.as_bytes().to_vec();
        value(ctx, "&str", &&s[..], &bytes)?;
        wrapped(ctx, r, "String", s, &bytes)?;
        let n = r.below(30);
        let p = if r.chance(1, 4) { vec![] } else { r.bytes(n) };
        wrapped(ctx, r, "Principal", Principal::from_slice(&p), &p)?;
        let d = gen_digits(r);
        let want = if d.is_empty() { vec![0] } else { d.clone() };
        wrapped(ctx, r, "Nat", nat_of(&d), &want)?;
    }
    value(ctx, "Principal", &Principal::anonymous(), &[4])?;
    value(ctx, "Principal", &Principal::management_canister(), &[])?;
    if ctx.case % 64 == 0 && !ctx.small {
        // The small types completely.
        for x in 0..=u8::MAX {
            value(ctx, "u8", &x, &[x])?;
            value(ctx, "i8", &(x as i8), &[x])?;
            value(ctx, "[u8; 1]", &[x], &[x])?;
        }
        for x in 0..=u16::MAX {
            value(ctx, "u16", &x, &be(x as u128, 2))?;
            value(ctx, "i16", &(x as i16), &be(x as u128, 2))?;
            value(ctx, "Nat", &Nat::from(x as u32), &if x < 256 { vec![x as u8] } else { be(x as u128, 2) })?;
        }
    }
    ctx.sample(|| "one value, or several, of each of 12 integer types, f32, f64, bool, [u8; 1..=32], Vec<u8>, &[u8], String, &str, Principal, Nat and their boxes and shared pointers".to_string());
    Ok(())
}

// ---------------------------------------------------------------- C09

/// How the misordering of a pair is known, if it is.
type Known<'a, K> = &'a dyn Fn(&K, &K) -> Option<String>;

fn none<K>(_: &K, _: &K) -> Option<String> {
    None
}

fn pair<K: Label + Debug>(ctx: &mut Ctx, name: &str, a: &K, ab: &[u8], b: &K, bb: &[u8], known: Known<K>) -> R {
    let (la, lb) = (a.as_label(), b.as_label());
    ensure!(&la[..] == ab, "{}: the label of {:?} is {}, should be {}", name, a, hex(&la), hex(ab));
    ensure!(&lb[..] == bb, "{}: the label of {:?} is {}, should be {}", name, b, hex(&lb), hex(bb));
    let keys = a.cmp(b);
    let labels = la[..].cmp(&lb[..]);
    ensure!((keys == Ordering::Equal) == (labels == Ordering::Equal), "{}: {:?} and {:?} compare {:?} but have the labels {} and {}", name, a, b, keys, hex(&la), hex(&lb));
    ensure!(b.cmp(a) == keys.reverse(), "{}: comparison of {:?} and {:?} is not antisymmetric", name, a, b);
    if keys != labels {
        let (lo, hi) = if keys == Ordering::Less { (a, b) } else { (b, a) };
        match known(lo, hi) {
            Some(sig) => ctx.finding(&sig),
            None => return Err(Fail(format!("{}: {:?} < {:?} but the labels are {} and {}", name, lo, hi, hex(&lo.as_label()), hex(&hi.as_label())))),
        }
    }
    ctx.count("pairs of keys", 1);
    let mut s = Sig::new();
    s.add(name.as_bytes());
    s.num(ab.len() as u64);
    s.add(ab);
    s.num(bb.len() as u64);
    s.add(bb);
    if keys == Ordering::Equal {
        ctx.trivial()
    } else {
        ctx.seen(s.0);
    }
    Ok(())
}

fn near(r: &mut Rng, a: &[u8]) -> Vec<u8> {
    let mut b = a.to_vec();
    match r.below(5) {
        0 => {
            if !b.is_empty() {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
        }
        1 => b.push(*r.pick(&[0u8, 1, 0xff])),
        2 => {
            b.pop();
        }
        3 => {
            let n = r.below(b.len() + 1);
            b.truncate(n);
        }
        _ => {}
    }
    b
}

fn kind<K: Key>(ctx: &mut Ctx, r: &mut Rng, known: Known<K>) -> R {
    for _ in 0..12 {
        let st = r.below(60) as u32;
        let (i, j) = (r.below(400), r.below(400));
        let a = K::gen(r, st, i);
        let b = K::gen(r, st, j);
        pair(ctx, K::NAME, &a, &a.bytes(), &b, &b.bytes(), known)?;
        pair(ctx, K::NAME, &a, &a.bytes(), &a, &a.bytes(), known)?;
    }
    Ok(())
}

fn prefixes<K: Prefix<[u8]> + Debug>(ctx: &mut Ctx, k: &K, kb: &[u8], p: &[u8]) -> R {
    let want = kb.len() >= p.len() && &kb[..p.len()] == p;
    ensure!(k.is_prefix(p) == want, "is_prefix({}) of {} is {}", hex(p), hex(kb), !want);
    ctx.count("prefix tests", 1);
    Ok(())
}

fn signed(name: &str, lo_neg: bool, hi_neg: bool) -> Option<String> {
    // Exactly the pairs across zero.
    if lo_neg && !hi_neg {
        Some(format!("signed integer keys: a negative key sorts before a non-negative one but its label sorts after ({})", name))
    } else {
        None
    }
}

fn paged_labels<K: Key, const S: usize>(ctx: &mut Ctx, r: &mut Rng, known: &dyn Fn(&K, u32, &K, u32) -> Option<String>) -> R {
    let keys: Vec<K> = crate::kinds::pool(r, 8);
    let mut p = Paged::<K, u32, S>::new();
    let mut n: Vec<u32> = vec![0; keys.len()];
    let steps = r.range(1, 30 * S.min(4));
    for _ in 0..steps {
        let i = r.below(keys.len());
        let m = if r.chance(1, 12) { 300 * S } else { 1 };
        let m = if ctx.small { 1 } else { m };
        for _ in 0..m {
            p.insert(keys[i].clone(), r.below(9) as u32);
            n[i] += 1;
        }
    }
    let mut want: Vec<(usize, u32)> = vec![];
    for (i, c) in n.iter().enumerate() {
        for pg in 0..(*c + S as u32 - 1) / S as u32 {
            want.push((i, pg));
        }
    }
    let t = tree::from(&p.as_hash_tree());
    let labels = t.labels();
    ensure!(labels.len() == want.len(), "a paged collection with {} pages shows {} labels", want.len(), labels.len());
    let doc = |(i, pg): (usize, u32)| {
        let mut b = keys[i].bytes();
        b.extend_from_slice(&pg.to_be_bytes());
        b
    };
    for (j, l) in labels.iter().enumerate() {
        let w = doc(want[j]);
        ensure!(*l == &w[..], "label {} of the paged collection is {}, should be {} (key {:?} page {})", j, hex(l), hex(&w), keys[want[j].0], want[j].1);
        if j > 0 && !(labels[j - 1] < *l) {
            let (a, b) = (want[j - 1], want[j]);
            match known(&keys[a.0], a.1, &keys[b.0], b.1) {
                Some(sig) => ctx.finding(&sig),
                None => return Err(Fail(format!("labels of ({:?}, page {}) and ({:?}, page {}) are not ascending: {} then {}", keys[a.0], a.1, keys[b.0], b.1, hex(labels[j - 1]), hex(l)))),
            }
        }
        let mut s = Sig::new();
        s.add(l);
        ctx.seen(s.0);
    }
    ctx.count("labels of paged collections", labels.len() as u64);
    Ok(())
}

fn paged_variable<K: Key>(a: &K, _pa: u32, b: &K, _pb: u32) -> Option<String> {
    // One key's bytes continue the other's.
    let (x, y) = (a.bytes(), b.bytes());
    if x.len() < y.len() && y[..x.len()] == x[..] {
        Some(format!("paged collections with variable-length keys: a page of a key sorts before a page of a longer key that continues it, but its label sorts after ({})", K::NAME))
    } else {
        None
    }
}

pub fn c09(ctx: &mut Ctx, r: &mut Rng) -> R {
    macro_rules! unsigned { ($($t:ty)*) => {$({
        let n = std::mem::size_of::<$t>();
        for _ in 0..6 {
            let x = bits(r);
            let y = if r.chance(1, 2) { bits(r) } else { x.wrapping_add(r.below(5) as u128).wrapping_sub(2) };
            pair(ctx, stringify!($t), &(x as $t), &be(x, n), &(y as $t), &be(y, n), &none)?;
        }
    })*} }
    macro_rules! ints { ($($t:ty)*) => {$({
        let n = std::mem::size_of::<$t>();
        for _ in 0..6 {
            let x = bits(r);
            let y = if r.chance(1, 2) { bits(r) } else { x.wrapping_add(r.below(5) as u128).wrapping_sub(2) };
            pair(ctx, stringify!($t), &(x as $t), &be(x, n), &(y as $t), &be(y, n), &|a: &$t, b: &$t| signed(stringify!($t), *a < 0, *b < 0))?;
        }
    })*} }
    macro_rules! arrays { ($($n:tt)*) => {$({
        let mut a = [0u8; $n];
        let v = r.bytes($n);
        a.copy_from_slice(&v);
        let mut b = a;
        if r.chance(3, 4) {
            let i = r.below($n);
            b[i] = *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff]);
        } else {
            let v = r.bytes($n);
            b.copy_from_slice(&v);
        }
        pair(ctx, concat!("[u8; ", $n, "]"), &a, &a, &b, &b, &none)?;
        let cut = r.below($n + 1);
        let p = near(r, &a[..cut]);
        prefixes(ctx, &a, &a, &p)?;
    })*} }
    unsigned!(u8 u16 u32 u64 u128 usize);
    ints!(i8 i16 i32 i64 i128 isize);
    each_array!(arrays);
    pair(ctx, "bool", &false, &[0], &true, &[1], &none)?;
    kind::<Vec<u8>>(ctx, r, &none)?;
    kind::<String>(ctx, r, &none)?;
    kind::<Box<[u8]>>(ctx, r, &none)?;
    kind::<Arc<String>>(ctx, r, &none)?;
    kind::<Rc<Vec<u8>>>(ctx, r, &none)?;
    kind::<Box<u32>>(ctx, r, &none)?;
    kind::<Comp>(ctx, r, &none)?;
    kind::<Principal>(ctx, r, &|a, b| {
        if a.as_slice().len() != b.as_slice().len() {
            Some("principal keys of different lengths: the shorter sorts first but its label sorts after".into())
        } else {
            None
        }
    })?;
    for _ in 0..10 {
        let st = r.below(5) as u32;
        let a = gen_bytes(r, st, 7);
        let b = near(r, &a);
        pair(ctx, "Vec<u8>", &a, &a, &b, &b, &none)?;
        let (ba, bb): (Box<[u8]>, Box<[u8]>) = (a.clone().into(), b.clone().into());
        pair(ctx, "Box<[u8]>", &ba, &a, &bb, &b, &none)?;
        let p = near(r, &a);
        prefixes(ctx, &b, &b, &p)?;
        prefixes(ctx, &ba, &a, &p)?;
        prefixes(ctx, &a, &a, &b)?;
        let s = gen_text(r, st, 3);
        let t = gen_text(r, st, 4);
        pair(ctx, "String", &s, s.as_bytes(), &t, t.as_bytes(), &none)?;
        ensure!(Prefix::<str>::is_prefix(&s, &t) == s.starts_with(&t), "is_prefix({:?}) of {:?}", t, s);
        let cut: String = s.chars().take(r.below(6)).collect();
        ensure!(Prefix::<str>::is_prefix(&s, &cut), "{:?} is not a prefix of {:?}", cut, s);
        let (pa, pb) = (gen_principal(r, 1, 0), gen_principal(r, 1, 0));
        ensure!(&pa.as_label()[..] == pa.as_slice() && &pb.as_label()[..] == pb.as_slice(), "principal labels");
        // Pointers to keys in place: labels are the pointee's, the order is the
        // address order.
        let mut arr = [r.u64() as u32, r.u64() as u32];
        let base = arr.as_mut_ptr();
        let (x, y) = unsafe { (NonNull::new_unchecked(base), NonNull::new_unchecked(base.add(1))) };
        let (bx, by) = unsafe { (Key::bytes(&*base), Key::bytes(&*base.add(1))) };
        if bx != by {
            pair(ctx, "NonNull<u32>", &x, &bx, &y, &by, &|_, _| Some("NonNull keys compare by address, their labels by pointee".into()))?;
        }
    }
    if ctx.case % 8 == 0 {
        paged_labels::<u8, 1>(ctx, r, &|_, _, _, _| None)?;
        paged_labels::<u32, 2>(ctx, r, &|_, _, _, _| None)?;
        paged_labels::<[u8; 3], 3>(ctx, r, &|_, _, _, _| None)?;
        paged_labels::<u64, 1>(ctx, r, &|_, _, _, _| None)?;
        paged_labels::<bool, 1>(ctx, r, &|_, _, _, _| None)?;
        paged_labels::<Comp, 2>(ctx, r, &|_, _, _, _| None)?;
        paged_labels::<i16, 1>(ctx, r, &|a, _, b, _| signed("i16", *a < 0, *b < 0))?;
        paged_labels::<Vec<u8>, 1>(ctx, r, &paged_variable)?;
        paged_labels::<String, 2>(ctx, r, &paged_variable)?;
    }
    if ctx.case % 64 == 0 && !ctx.small {
        for a in 0..=255u8 {
            for b in 0..=255u8 {
                pair(ctx, "u8", &a, &[a], &b, &[b], &none)?;
                pair(ctx, "i8", &(a as i8), &[a], &(b as i8), &[b], &|a: &i8, b: &i8| signed("i8", *a < 0, *b < 0))?;
            }
        }
    }
    ctx.sample(|| "pairs of neighbouring, random and boundary keys of each key type, prefixes of them, and all labels of small paged collections".to_string());
    Ok(())
}

