//! Key and value types the histories run over, each with an independent
//! statement of its documented bytes.

use crate::tree::T;
use crate::util::Rng;
use candid::{Nat, Principal};
use certified_vars::label::{Label, Prefix};
use certified_vars::rbtree::entry::Entry;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, HashTree, Map, Seq};
use std::borrow::Cow;
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::rc::Rc;
use std::sync::Arc;

pub trait Key: Label + Clone + Debug + Ord + 'static {
    const NAME: &'static str;
    /// Key order is the byte order of the labels.
    const BYTE_ORDERED: bool = true;
    /// All labels of the type have one length.
    const FIXED: bool = false;
    /// One key; `style` is fixed per history, `i` is a running number.
    fn gen(r: &mut Rng, style: u32, i: usize) -> Self;
    /// The documented bytes of the key.
    fn bytes(&self) -> Vec<u8>;

    // Lookups through a borrowed form of the key, where there is one.
    fn get_b<'a, V: AsHashTree + 'static>(t: &'a RbTree<Self, V>, k: &Self) -> Option<&'a V> {
        t.get(k)
    }
    fn remove_b<V: AsHashTree + 'static>(t: &mut RbTree<Self, V>, k: &Self) -> Option<(Self, V)> {
        t.delete(k)
    }
    fn witness_b<'a, V: AsHashTree + 'static>(t: &'a RbTree<Self, V>, k: &Self) -> HashTree<'a> {
        t.witness(k)
    }
    fn key_range_b<'a, V: AsHashTree + 'static>(t: &'a RbTree<Self, V>, a: &Self, b: &Self) -> HashTree<'a> {
        t.key_range(a, b)
    }
    fn value_range_b<'a, V: AsHashTree + 'static>(t: &'a RbTree<Self, V>, a: &Self, b: &Self) -> HashTree<'a> {
        t.value_range(a, b)
    }

    // Prefix queries, where the type has them. Prefixes travel as bytes.
    const PREFIX: bool = false;
    fn gen_prefix(_r: &mut Rng, _of: &Self) -> Vec<u8> {
        vec![]
    }
    fn has_prefix(&self, _p: &[u8]) -> bool {
        false
    }
    /// The key is the prefix itself, so that nothing with the prefix is smaller.
    fn is_prefix_exact(&self, p: &[u8]) -> bool {
        self.bytes() == p
    }
    /// The key comes before everything with the prefix.
    fn before_prefix(&self, _p: &[u8]) -> bool {
        false
    }
    fn prefix_witness<'a, V: AsHashTree + 'static>(_t: &'a RbTree<Self, V>, _p: &[u8]) -> HashTree<'a> {
        unreachable!()
    }
    fn map_prefix_witness<'a, V: AsHashTree + 'static>(_t: &'a Map<Self, V>, _p: &[u8]) -> HashTree<'a> {
        unreachable!()
    }
    fn max_prefix<'a, V: AsHashTree + 'static>(_t: &'a RbTree<Self, V>, _p: &[u8]) -> Option<(&'a Self, &'a V)> {
        unreachable!()
    }
    fn modify_max<V: AsHashTree + 'static, X>(_t: &mut RbTree<Self, V>, _p: &[u8], _f: &mut dyn FnMut(&Self, &mut V) -> X) -> Option<X> {
        unreachable!()
    }
}

macro_rules! prefix_bytes {
    () => {
        const PREFIX: bool = true;
        fn has_prefix(&self, p: &[u8]) -> bool {
            self.bytes().get(..p.len()) == Some(p)
        }
        fn before_prefix(&self, p: &[u8]) -> bool {
            &self.bytes()[..] < p
        }
        fn prefix_witness<'a, V: AsHashTree + 'static>(t: &'a RbTree<Self, V>, p: &[u8]) -> HashTree<'a> {
            t.keys_with_prefix::<[u8]>(p)
        }
        fn map_prefix_witness<'a, V: AsHashTree + 'static>(t: &'a Map<Self, V>, p: &[u8]) -> HashTree<'a> {
            t.witness_keys_with_prefix::<[u8]>(p)
        }
        fn max_prefix<'a, V: AsHashTree + 'static>(t: &'a RbTree<Self, V>, p: &[u8]) -> Option<(&'a Self, &'a V)> {
            t.max_entry_with_prefix::<[u8]>(p)
        }
        fn modify_max<V: AsHashTree + 'static, X>(t: &mut RbTree<Self, V>, p: &[u8], f: &mut dyn FnMut(&Self, &mut V) -> X) -> Option<X> {
            t.modify_max_with_prefix::<[u8], _>(p, |k, v| f(k, v))
        }
    };
}

macro_rules! borrow_slice {
    () => {
        fn get_b<'a, V: AsHashTree + 'static>(t: &'a RbTree<Self, V>, k: &Self) -> Option<&'a V> {
            t.get::<[u8]>(&k[..])
        }
        fn remove_b<V: AsHashTree + 'static>(t: &mut RbTree<Self, V>, k: &Self) -> Option<(Self, V)> {
            t.delete::<[u8]>(&k[..])
        }
        fn witness_b<'a, V: AsHashTree + 'static>(t: &'a RbTree<Self, V>, k: &Self) -> HashTree<'a> {
            t.witness::<[u8]>(&k[..])
        }
        fn key_range_b<'a, V: AsHashTree + 'static>(t: &'a RbTree<Self, V>, a: &Self, b: &Self) -> HashTree<'a> {
            t.key_range::<[u8], Self>(&a[..], b)
        }
        fn value_range_b<'a, V: AsHashTree + 'static>(t: &'a RbTree<Self, V>, a: &Self, b: &Self) -> HashTree<'a> {
            t.value_range::<Self, [u8]>(a, &b[..])
        }
    };
}

pub const LENS: &[usize] = &[0, 1, 2, 3, 7, 8, 15, 16, 20, 23, 24, 25, 31, 32, 33, 36, 37, 44, 45, 55, 56, 63, 64, 65, 100, 119, 120, 127, 128, 129, 255, 256, 257, 300];

/// Byte strings in the shapes that matter for ordering and prefixes.
pub fn gen_bytes(r: &mut Rng, style: u32, i: usize) -> Vec<u8> {
    match style % 5 {
        0 => {
            let n = r.below(6);
            (0..n).map(|_| *r.pick(&[0u8, 1, b'a', b'b', 0xff])).collect()
        }
        1 => {
            let base = vec![b'p'; *r.pick(&[1usize, 8, 63, 64, 100])];
            let mut v = base;
            v.extend((0..r.below(4)).map(|_| *r.pick(b"\x00ab\xff")));
            v
        }
        2 => {
            let n = *r.pick(LENS);
            r.bytes(n)
        }
        3 => (i as u64).to_be_bytes().to_vec(),
        _ => {
            let n = r.range(1, 3);
            r.bytes(n)
        }
    }
}

pub fn gen_text(r: &mut Rng, style: u32, i: usize) -> String {
    match style % 5 {
        0 => (0..r.below(5)).map(|_| *r.pick(&['a', 'b', '\0', ' ', 'é', '\u{7f}', '\u{10ffff}'])).collect(),
        1 => {
            let mut s = "p".repeat(*r.pick(&[1usize, 8, 63, 64, 100]));
            s.extend((0..r.below(4)).map(|_| *r.pick(&['a', 'b', '\0', 'ß'])));
            s
        }
        2 => {
            let n = *r.pick(LENS);
            (0..n).map(|_| (b' ' + r.below(95) as u8) as char).collect()
        }
        3 => format!("{:08}", i),
        _ => format!("{}", r.below(2000)),
    }
}

fn cut(r: &mut Rng, mut v: Vec<u8>) -> Vec<u8> {
    let n = match r.below(8) {
        0 => 0,
        1 => v.len(),
        2 => v.len() / 2,
        _ => r.range(0, v.len().min(4)),
    };
    v.truncate(n);
    if r.chance(1, 8) {
        v.push(*r.pick(&[0u8, 1, b'a', 0xff]));
    }
    v
}

impl Key for Vec<u8> {
    const NAME: &'static str = "Vec<u8>";
    fn gen(r: &mut Rng, style: u32, i: usize) -> Self {
        gen_bytes(r, style, i)
    }
    fn bytes(&self) -> Vec<u8> {
        self.clone()
    }
    fn gen_prefix(r: &mut Rng, of: &Self) -> Vec<u8> {
        cut(r, of.clone())
    }
    borrow_slice!();
    prefix_bytes!();
}

impl Key for Box<[u8]> {
    const NAME: &'static str = "Box<[u8]>";
    fn gen(r: &mut Rng, style: u32, i: usize) -> Self {
        gen_bytes(r, style, i).into()
    }
    fn bytes(&self) -> Vec<u8> {
        self.to_vec()
    }
    fn gen_prefix(r: &mut Rng, of: &Self) -> Vec<u8> {
        cut(r, of.to_vec())
    }
    borrow_slice!();
    prefix_bytes!();
}

macro_rules! array_key {
    ($($n:expr),*) => {$(
        impl Key for [u8; $n] {
            const NAME: &'static str = concat!("[u8; ", $n, "]");
            const FIXED: bool = true;
            fn gen(r: &mut Rng, style: u32, i: usize) -> Self {
                let mut k = [0u8; $n];
                match style % 3 {
                    0 => for x in k.iter_mut() { *x = *r.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff]) },
                    1 => { let v = r.bytes($n); k.copy_from_slice(&v) }
                    _ => for (j, x) in k.iter_mut().rev().enumerate().take(7) { *x = (i as u64 >> (8 * j)) as u8 },
                }
                k
            }
            fn bytes(&self) -> Vec<u8> { self.to_vec() }
            fn gen_prefix(r: &mut Rng, of: &Self) -> Vec<u8> { cut(r, of.to_vec()) }
            borrow_slice!();
            prefix_bytes!();
        }
    )*};
}
array_key!(2, 3, 20, 32);

impl Key for String {
    const NAME: &'static str = "String";
    fn gen(r: &mut Rng, style: u32, i: usize) -> Self {
        gen_text(r, style, i)
    }
    fn bytes(&self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
    fn get_b<'a, V: AsHashTree + 'static>(t: &'a RbTree<Self, V>, k: &Self) -> Option<&'a V> {
        t.get::<str>(k)
    }
    fn remove_b<V: AsHashTree + 'static>(t: &mut RbTree<Self, V>, k: &Self) -> Option<(Self, V)> {
        t.delete::<str>(k)
    }
    fn witness_b<'a, V: AsHashTree + 'static>(t: &'a RbTree<Self, V>, k: &Self) -> HashTree<'a> {
        t.witness::<str>(k)
    }
    fn key_range_b<'a, V: AsHashTree + 'static>(t: &'a RbTree<Self, V>, a: &Self, b: &Self) -> HashTree<'a> {
        t.key_range::<str, str>(a, b)
    }
    fn value_range_b<'a, V: AsHashTree + 'static>(t: &'a RbTree<Self, V>, a: &Self, b: &Self) -> HashTree<'a> {
        t.value_range::<str, String>(a, b)
    }
    const PREFIX: bool = true;
    fn gen_prefix(r: &mut Rng, of: &Self) -> Vec<u8> {
        let cs: Vec<char> = of.chars().collect();
        let n = match r.below(8) {
            0 => 0,
            1 => cs.len(),
            2 => cs.len() / 2,
            _ => r.range(0, cs.len().min(4)),
        };
        let mut s: String = cs[..n].iter().collect();
        if r.chance(1, 8) {
            s.push(*r.pick(&['\0', 'a', 'é']));
        }
        s.into_bytes()
    }
    fn has_prefix(&self, p: &[u8]) -> bool {
        self.as_bytes().get(..p.len()) == Some(p)
    }
    fn before_prefix(&self, p: &[u8]) -> bool {
        self.as_bytes() < p
    }
    fn prefix_witness<'a, V: AsHashTree + 'static>(t: &'a RbTree<Self, V>, p: &[u8]) -> HashTree<'a> {
        t.keys_with_prefix::<str>(std::str::from_utf8(p).unwrap())
    }
    fn map_prefix_witness<'a, V: AsHashTree + 'static>(t: &'a Map<Self, V>, p: &[u8]) -> HashTree<'a> {
        t.witness_keys_with_prefix::<str>(std::str::from_utf8(p).unwrap())
    }
    fn max_prefix<'a, V: AsHashTree + 'static>(t: &'a RbTree<Self, V>, p: &[u8]) -> Option<(&'a Self, &'a V)> {
        t.max_entry_with_prefix::<str>(std::str::from_utf8(p).unwrap())
    }
    fn modify_max<V: AsHashTree + 'static, X>(t: &mut RbTree<Self, V>, p: &[u8], f: &mut dyn FnMut(&Self, &mut V) -> X) -> Option<X> {
        t.modify_max_with_prefix::<str, _>(std::str::from_utf8(p).unwrap(), |k, v| f(k, v))
    }
}

macro_rules! num_key {
    ($($t:ty, $ordered:expr);*) => {$(
        impl Key for $t {
            const NAME: &'static str = stringify!($t);
            const FIXED: bool = true;
            const BYTE_ORDERED: bool = $ordered;
            #[allow(arithmetic_overflow)]
            fn gen(r: &mut Rng, style: u32, i: usize) -> Self {
                const W: u32 = <$t>::BITS;
                match style % 4 {
                    0 => i as $t,
                    1 => (r.u64() as u128 | (r.u64() as u128) << 64) as $t,
                    2 => {
                        let one: $t = 1;
                        let p = one.wrapping_shl(r.below(W as usize) as u32);
                        p.wrapping_add(r.below(3) as $t).wrapping_sub(1)
                    }
                    _ => r.below(64) as $t,
                }
            }
            fn bytes(&self) -> Vec<u8> {
                let n = (<$t>::BITS / 8) as usize;
                let x = *self as u128;
                (0..n).rev().map(|j| (x >> (8 * j)) as u8).collect()
            }
        }
    )*};
}
num_key!(u8, true; u16, true; u32, true; u64, true; u128, true; usize, true; i16, false; i64, false);

impl Key for bool {
    const NAME: &'static str = "bool";
    const FIXED: bool = true;
    fn gen(r: &mut Rng, _style: u32, _i: usize) -> Self {
        r.chance(1, 2)
    }
    fn bytes(&self) -> Vec<u8> {
        vec![if *self { 1 } else { 0 }]
    }
}

pub fn gen_principal(r: &mut Rng, style: u32, i: usize) -> Principal {
    let v = match style % 3 {
        0 => (0..r.below(4)).map(|_| *r.pick(&[0u8, 1, 0xff])).collect(),
        1 => {
            let n = r.range(0, 29);
            r.bytes(n)
        }
        _ => (i as u64).to_be_bytes().to_vec(),
    };
    Principal::from_slice(&v)
}

impl Key for Principal {
    const NAME: &'static str = "Principal";
    const BYTE_ORDERED: bool = false;
    fn gen(r: &mut Rng, style: u32, i: usize) -> Self {
        gen_principal(r, style, i)
    }
    fn bytes(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
}

/// A user's composite key: `Prefix` with the trait's default `is_prefix`, so
/// many keys borrow as the same prefix.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize, candid::CandidType)]
pub struct Comp {
    pub a: u8,
    pub b: u16,
}
impl Label for Comp {
    fn as_label(&self) -> Cow<[u8]> {
        Cow::Owned(vec![self.a, (self.b >> 8) as u8, self.b as u8])
    }
}
impl std::borrow::Borrow<u8> for Comp {
    fn borrow(&self) -> &u8 {
        &self.a
    }
}
impl Prefix<u8> for Comp {}

impl Key for Comp {
    const NAME: &'static str = "Comp(u8,u16)";
    const FIXED: bool = true;
    fn gen(r: &mut Rng, style: u32, i: usize) -> Self {
        match style % 3 {
            0 => Comp { a: r.below(4) as u8, b: r.below(6) as u16 },
            1 => Comp { a: *r.pick(&[0, 1, 254, 255]), b: *r.pick(&[0, 1, 255, 256, 65535]) },
            _ => Comp { a: (i / 7) as u8, b: i as u16 },
        }
    }
    fn bytes(&self) -> Vec<u8> {
        vec![self.a, (self.b >> 8) as u8, self.b as u8]
    }
    const PREFIX: bool = true;
    fn gen_prefix(r: &mut Rng, of: &Self) -> Vec<u8> {
        vec![match r.below(4) {
            0 => of.a.wrapping_add(1),
            1 => of.a.wrapping_sub(1),
            _ => of.a,
        }]
    }
    fn has_prefix(&self, p: &[u8]) -> bool {
        self.a == p[0]
    }
    fn before_prefix(&self, p: &[u8]) -> bool {
        self.a < p[0]
    }
    fn prefix_witness<'a, V: AsHashTree + 'static>(t: &'a RbTree<Self, V>, p: &[u8]) -> HashTree<'a> {
        t.keys_with_prefix::<u8>(&p[0])
    }
    fn map_prefix_witness<'a, V: AsHashTree + 'static>(t: &'a Map<Self, V>, p: &[u8]) -> HashTree<'a> {
        t.witness_keys_with_prefix::<u8>(&p[0])
    }
    fn max_prefix<'a, V: AsHashTree + 'static>(t: &'a RbTree<Self, V>, p: &[u8]) -> Option<(&'a Self, &'a V)> {
        t.max_entry_with_prefix::<u8>(&p[0])
    }
    fn modify_max<V: AsHashTree + 'static, X>(t: &mut RbTree<Self, V>, p: &[u8], f: &mut dyn FnMut(&Self, &mut V) -> X) -> Option<X> {
        t.modify_max_with_prefix::<u8, _>(&p[0], |k, v| f(k, v))
    }
}

macro_rules! pointer_key {
    ($p:ident, $t:ty) => {
        impl Key for $p<$t> {
            const NAME: &'static str = stringify!($p<$t>);
            const BYTE_ORDERED: bool = <$t as Key>::BYTE_ORDERED;
            fn gen(r: &mut Rng, style: u32, i: usize) -> Self {
                $p::new(<$t as Key>::gen(r, style, i))
            }
            fn bytes(&self) -> Vec<u8> {
                (**self).bytes()
            }
        }
    };
}
pointer_key!(Arc, String);
pointer_key!(Rc, Vec<u8>);
pointer_key!(Box, u32);

/// `n` distinct keys at most, in order.
pub fn pool<K: Key>(r: &mut Rng, n: usize) -> Vec<K> {
    let style = r.below(60) as u32;
    let mut s = BTreeSet::new();
    let mut i = 0;
    while s.len() < n && i < n * 3 + 20 {
        s.insert(K::gen(r, style, i));
        i += 1;
    }
    s.into_iter().collect()
}

pub trait Val: AsHashTree + Clone + PartialEq + Debug + 'static {
    const NAME: &'static str;
    fn gen(r: &mut Rng) -> Self;
    /// The documented hash tree of the value.
    fn t(&self) -> T;
    /// What `Default` gives, or a fixed value for types without it.
    fn dflt() -> Self;
    fn or_default<'a, K: Label + 'static>(e: Entry<'a, K, Self>) -> &'a mut Self {
        e.or_insert(Self::dflt())
    }
    /// The value is a sequence, and `append_deep` applies.
    const SEQ: bool = false;
    fn push(&mut self, _x: u16) {
        unreachable!()
    }
    fn count(&self) -> usize {
        unreachable!()
    }
    fn append_deep<K: Label + 'static>(_m: &mut Map<K, Self>, _k: K, _x: u16) {
        unreachable!()
    }
    fn len_deep<K: Label + 'static>(_m: &mut Map<K, Self>, _k: &K) -> usize {
        unreachable!()
    }
}

macro_rules! val {
    ($t:ty, $r:ident => $gen:expr, $s:ident => $tree:expr $(, $extra:item)*) => {
        impl Val for $t {
            const NAME: &'static str = stringify!($t);
            fn gen($r: &mut Rng) -> Self {
                $gen
            }
            fn t(&self) -> T {
                let $s = self;
                $tree
            }
            fn dflt() -> Self {
                <$t as Default>::default()
            }
            fn or_default<'a, K: Label + 'static>(e: Entry<'a, K, Self>) -> &'a mut Self {
                e.or_default()
            }
            $($extra)*
        }
    };
}

/// Few values, so that equal values under different keys and rewrites with the
/// same value happen.
fn small(r: &mut Rng) -> u64 {
    if r.chance(1, 3) {
        r.below(3) as u64
    } else {
        r.u64()
    }
}

val!(Vec<u8>, r => { let st = r.below(3) as u32; gen_bytes(r, st, 0) }, s => T::leaf(s));
val!(String, r => { let st = r.below(3) as u32; gen_text(r, st, 0) }, s => T::leaf(s.as_bytes()));
val!(u8, r => small(r) as u8, s => T::leaf(&[*s]));
val!(u32, r => small(r) as u32, s => T::leaf(&Key::bytes(s)));
val!(u64, r => small(r), s => T::leaf(&Key::bytes(s)));
val!(bool, r => r.chance(1, 2), s => T::leaf(&Key::bytes(s)));
val!([u8; 32], r => { let mut a = [0; 32]; let v = r.bytes(32); a.copy_from_slice(&v); if r.chance(1, 4) { a = [0; 32] } a }, s => T::leaf(s));
val!(Box<u32>, r => Box::new(small(r) as u32), s => T::leaf(&Key::bytes(&**s)));
val!(Seq<u16>, r => { let n = r.below(4); (0..n).map(|_| r.below(5) as u16).collect() }, s => T::Pruned(crate::seqc::chain(s.as_vec().iter().map(|x| crate::tree::h_leaf(&Key::bytes(x))))),
    const SEQ: bool = true;,
    fn push(&mut self, x: u16) { self.append(x) },
    fn count(&self) -> usize { self.len() },
    fn append_deep<K: Label + 'static>(m: &mut Map<K, Self>, k: K, x: u16) { m.append_deep(k, x) },
    fn len_deep<K: Label + 'static>(m: &mut Map<K, Self>, k: &K) -> usize { m.len_deep(k) }
);
impl Val for Principal {
    const NAME: &'static str = "Principal";
    fn gen(r: &mut Rng) -> Self {
        let st = r.below(2) as u32;
        gen_principal(r, st, 0)
    }
    fn t(&self) -> T {
        T::leaf(self.as_slice())
    }
    fn dflt() -> Self {
        Principal::from_slice(&[4])
    }
}
impl Val for Nat {
    const NAME: &'static str = "Nat";
    fn gen(r: &mut Rng) -> Self {
        crate::vals::nat_of(&crate::vals::gen_digits(r))
    }
    fn t(&self) -> T {
        T::leaf(&crate::vals::nat_bytes(self))
    }
    fn dflt() -> Self {
        Nat::from(0u8)
    }
}

/// A user's value with a hash tree of any shape, the empty one included.
#[derive(Clone, PartialEq, Debug)]
pub struct Odd(pub T);

impl AsHashTree for Odd {
    fn as_hash_tree(&self) -> HashTree<'_> {
        fn go(t: &T) -> HashTree<'_> {
            match t {
                T::Empty => HashTree::Empty,
                T::Fork(p) => certified_vars::hashtree::fork(go(&p.0), go(&p.1)),
                T::Labeled(l, t) => certified_vars::hashtree::labeled(l, go(t)),
                T::Leaf(b) => HashTree::Leaf(Cow::Borrowed(b)),
                T::Pruned(h) => HashTree::Pruned(*h),
            }
        }
        go(&self.0)
    }
}

impl Val for Odd {
    const NAME: &'static str = "value with any hash tree";
    fn gen(r: &mut Rng) -> Self {
        fn go(r: &mut Rng, deep: u32) -> T {
            match r.below(if deep == 0 { 4 } else { 7 }) {
                0 => T::Empty,
                1 => {
                    let mut h = [0; 32];
                    if r.chance(2, 3) {
                        h.copy_from_slice(&r.bytes(32));
                    }
                    T::Pruned(h)
                }
                2 | 3 => {
                    let n = r.below(3);
                    T::Leaf(r.bytes(n))
                }
                4 => {
                    let n = r.below(3);
                    T::Labeled(r.bytes(n), Box::new(go(r, deep - 1)))
                }
                _ => T::Fork(Box::new((go(r, deep - 1), go(r, deep - 1)))),
            }
        }
        let deep = r.below(4) as u32;
        Odd(go(r, deep))
    }
    fn t(&self) -> T {
        self.0.clone()
    }
    fn dflt() -> Self {
        Odd(T::Empty)
    }
}

pub const KINDS: usize = 19;

/// Run a generic function at one of the key/value type pairs.
#[macro_export]
macro_rules! with_kind {
    ($i:expr, $f:ident ( $($a:expr),* )) => {{
        use candid::{Nat, Principal};
        use certified_vars::Seq;
        use std::{rc::Rc, sync::Arc};
        use $crate::kinds::{Comp, Odd};
        match $i {
            0 => $f::<Vec<u8>, Vec<u8>>($($a),*),
            1 => $f::<String, String>($($a),*),
            2 => $f::<u8, u64>($($a),*),
            3 => $f::<u32, bool>($($a),*),
            4 => $f::<[u8; 2], Seq<u16>>($($a),*),
            5 => $f::<Principal, u64>($($a),*),
            6 => $f::<Box<[u8]>, String>($($a),*),
            7 => $f::<Comp, u64>($($a),*),
            8 => $f::<i16, Vec<u8>>($($a),*),
            9 => $f::<u64, Principal>($($a),*),
            10 => $f::<Arc<String>, Box<u32>>($($a),*),
            11 => $f::<bool, u8>($($a),*),
            12 => $f::<[u8; 32], [u8; 32]>($($a),*),
            13 => $f::<u128, Nat>($($a),*),
            14 => $f::<Rc<Vec<u8>>, Seq<u16>>($($a),*),
            15 => $f::<Comp, Seq<u16>>($($a),*),
            16 => $f::<u16, Odd>($($a),*),
            17 => $f::<String, Odd>($($a),*),
            _ => $f::<[u8; 3], u32>($($a),*),
        }
    }};
}
