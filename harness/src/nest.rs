//! C18: collections within collections, within groups.

use crate::hist::run_shrunk;
use crate::kinds::{Key, Val};
use crate::report::{Ctx, Fail, R};
use crate::seqc::chain;
use crate::ser::{dec, enc, Fmt, Wire};
use crate::tree::{self, find_label, Item, Lookup, T};
use crate::util::{clip, hex, seed_of, Rng, Sig};
use crate::wit::{ask_map, ask_tree, complete, gen_ask, minimal, req, Req, Shows, View};
use crate::{ensure, fail};
use certified_vars::collections::group::builder::GroupBuilder;
use certified_vars::collections::group::Group;
use certified_vars::rbtree::entry::Entry;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Hash, HashTree, Map, Paged, Seq};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Debug;

thread_local! {
    /// Number of keys in use per level.
    static SPREAD: Cell<usize> = Cell::new(8);
}

fn key<K: Key>(r: &mut Rng) -> K {
    let n = SPREAD.with(|s| s.get());
    // Level by level and case by case, the same few keys.
    let i = r.below(n);
    K::gen(&mut Rng::new(seed_of(&[i as u64, 7])), if n % 2 == 0 { 0 } else { 2 }, i)
}

/// What a proof is about.
#[derive(Debug)]
pub enum Claim {
    /// Everything at this level and below.
    Whole,
    /// A question to the collection at this level.
    Query(Req),
    /// Something within the value at a key; if `apart`, the value's own proof
    /// comes separately (serialized).
    Within { label: Vec<u8>, apart: Option<Vec<u8>>, inner: Box<Claim> },
}

impl Claim {
    fn depth(&self) -> usize {
        match self {
            Claim::Within { inner, .. } => 1 + inner.depth(),
            _ => 0,
        }
    }
    fn last(&self) -> &Claim {
        match self {
            Claim::Within { inner, .. } => inner.last(),
            c => c,
        }
    }
    fn apart(&self) -> bool {
        match self {
            Claim::Within { apart, inner, .. } => apart.is_some() || inner.apart(),
            _ => false,
        }
    }
}

/// The way a change took, from the outermost level.
type Way = Vec<&'static str>;

/// A collection at some level, or a plain value at the lowest.
pub trait Level: AsHashTree + Default + Wire + 'static {
    type M: Clone + Debug + PartialEq + Default;
    fn name() -> String;
    /// Whether a proof can lead into values of this type.
    const INTO: bool = false;
    fn make(r: &mut Rng) -> (Self, Self::M);
    /// Change something, here or further in.
    fn change(&mut self, r: &mut Rng, m: &mut Self::M, way: &mut Way) -> R;
    /// Whether the contents are `m`, and `t` is the full tree of that.
    fn audit(&self, m: &Self::M, t: &T) -> R;
    fn prove<'a>(&'a self, r: &mut Rng, m: &Self::M, c: &mut Claim) -> HashTree<'a>;
    fn judge(&self, m: &Self::M, c: &Claim, t: &T) -> R;
    /// `append_deep`, where the values of a map are sequences.
    fn push_at<K: Key>(_in: &mut Map<K, Self>, _k: K, _r: &mut Rng) -> Option<u16> {
        None
    }
    fn pushed(_m: &mut Self::M, _x: u16) {}
}

macro_rules! plain {
    ($($t:ty),*) => {$(
        impl Level for $t {
            type M = $t;
            fn name() -> String {
                stringify!($t).into()
            }
            fn make(r: &mut Rng) -> (Self, Self) {
                let x = <$t as Val>::gen(r);
                (x.clone(), x)
            }
            fn change(&mut self, r: &mut Rng, m: &mut Self, way: &mut Way) -> R {
                way.push("value");
                *self = <$t as Val>::gen(r);
                *m = self.clone();
                Ok(())
            }
            fn audit(&self, m: &Self, t: &T) -> R {
                ensure!(self == m, "the value is {:?}, should be {:?}", self, m);
                ensure!(*t == m.t(), "the value {:?} appears as {:?}", m, t);
                Ok(())
            }
            fn prove<'a>(&'a self, _: &mut Rng, _: &Self, c: &mut Claim) -> HashTree<'a> {
                *c = Claim::Whole;
                self.as_hash_tree()
            }
            fn judge(&self, m: &Self, _: &Claim, t: &T) -> R {
                self.audit(m, t)
            }
        }
    )*};
}
plain!(u32, String, u8);

impl<V: Level> Level for Box<V> {
    type M = V::M;
    fn name() -> String {
        format!("Box<{}>", V::name())
    }
    const INTO: bool = V::INTO;
    fn make(r: &mut Rng) -> (Self, Self::M) {
        let (x, m) = V::make(r);
        (Box::new(x), m)
    }
    fn change(&mut self, r: &mut Rng, m: &mut Self::M, way: &mut Way) -> R {
        (**self).change(r, m, way)
    }
    fn audit(&self, m: &Self::M, t: &T) -> R {
        ensure!(AsHashTree::root_hash(self) == (**self).root_hash(), "the box and its contents have different root hashes");
        (**self).audit(m, t)
    }
    fn prove<'a>(&'a self, r: &mut Rng, m: &Self::M, c: &mut Claim) -> HashTree<'a> {
        (**self).prove(r, m, c)
    }
    fn judge(&self, m: &Self::M, c: &Claim, t: &T) -> R {
        (**self).judge(m, c, t)
    }
}

impl Level for Seq<u16> {
    type M = Vec<u16>;
    fn name() -> String {
        "Seq<u16>".into()
    }
    fn make(r: &mut Rng) -> (Self, Self::M) {
        let v: Vec<u16> = (0..r.below(4)).map(|_| r.below(4) as u16).collect();
        (Seq::from(&v[..]), v)
    }
    fn change(&mut self, r: &mut Rng, m: &mut Self::M, way: &mut Way) -> R {
        let x = r.below(4) as u16;
        match r.below(6) {
            0 => {
                way.push("clear a sequence");
                self.clear();
                m.clear();
            }
            1 => {
                way.push("extend");
                let v = vec![x; r.below(4)];
                self.extend(&v);
                m.extend(v);
            }
            2 => {
                way.push("truncate by rebuilding");
                let mut v: Vec<u16> = std::mem::take(self).into();
                v.pop();
                m.pop();
                *self = v.into();
            }
            _ => {
                way.push("append");
                self.append(x);
                m.push(x);
            }
        }
        Ok(())
    }
    fn audit(&self, m: &Self::M, t: &T) -> R {
        ensure!(self.as_vec() == m, "the sequence is {:?}, should be {:?}", self.as_vec(), m);
        let h = chain(m.iter().map(|x| tree::h_leaf(&Key::bytes(x))));
        ensure!(*t == T::Pruned(h) && self.root_hash() == h, "the sequence {:?} appears as {:?}", m, t);
        Ok(())
    }
    fn prove<'a>(&'a self, _: &mut Rng, _: &Self::M, c: &mut Claim) -> HashTree<'a> {
        *c = Claim::Whole;
        self.as_hash_tree()
    }
    fn judge(&self, m: &Self::M, _: &Claim, t: &T) -> R {
        self.audit(m, t)
    }
    fn push_at<K: Key>(map: &mut Map<K, Self>, k: K, r: &mut Rng) -> Option<u16> {
        let x = r.below(4) as u16;
        map.append_deep(k, x);
        Some(x)
    }
    fn pushed(m: &mut Self::M, x: u16) {
        m.push(x)
    }
}

/// Sequences of collections; an item is not changed once it is in.
macro_rules! seq_of {
    ($($t:ty),*) => {$(
        impl Level for Seq<$t> {
            type M = Vec<<$t as Level>::M>;
            fn name() -> String {
                format!("Seq<{}>", <$t>::name())
            }
            fn make(r: &mut Rng) -> (Self, Self::M) {
                (0..r.below(3)).map(|_| <$t>::make(r)).unzip::<_, _, Vec<_>, _>().into_seq()
            }
            fn change(&mut self, r: &mut Rng, m: &mut Self::M, way: &mut Way) -> R {
                match r.below(8) {
                    0 => {
                        way.push("clear a sequence");
                        self.clear();
                        m.clear();
                    }
                    1 => {
                        // Out, changed, and in again.
                        way.push("rebuild a sequence");
                        let mut v: Vec<$t> = std::mem::take(self).into();
                        if !v.is_empty() {
                            let i = r.below(v.len());
                            let res = v[i].change(r, &mut m[i], way);
                            *self = v.into_iter().collect();
                            return res;
                        }
                    }
                    _ => {
                        way.push("append");
                        let (mut x, mut y) = <$t>::make(r);
                        for _ in 0..r.below(3) {
                            x.change(r, &mut y, &mut vec![])?;
                        }
                        self.append(x);
                        m.push(y);
                    }
                }
                Ok(())
            }
            fn audit(&self, m: &Self::M, t: &T) -> R {
                ensure!(self.len() == m.len(), "the sequence has {} items, should have {}", self.len(), m.len());
                let mut hs = vec![];
                for (i, (x, y)) in self.iter().zip(m).enumerate() {
                    let sub = tree::from(&x.as_hash_tree());
                    x.audit(y, &sub).map_err(|f| Fail(format!("item {}: {}", i, f.0)))?;
                    hs.push(sub.hash());
                }
                let h = chain(hs);
                ensure!(*t == T::Pruned(h) && self.root_hash() == h, "the sequence {:?} appears as {:?}, its chain is {}", m, t, hex(&h));
                Ok(())
            }
            fn prove<'a>(&'a self, _: &mut Rng, _: &Self::M, c: &mut Claim) -> HashTree<'a> {
                *c = Claim::Whole;
                self.as_hash_tree()
            }
            fn judge(&self, m: &Self::M, _: &Claim, t: &T) -> R {
                self.audit(m, t)
            }
        }
    )*};
}
trait IntoSeq<A, B> {
    fn into_seq(self) -> (Seq<A>, B);
}
impl<A: AsHashTree, B> IntoSeq<A, B> for (Vec<A>, B) {
    fn into_seq(self) -> (Seq<A>, B) {
        (self.0.into(), self.1)
    }
}
seq_of!(Map<u8, u32>, Seq<u16>, Map<u8, Map<u8, u32>>, String);

impl<K: Key + Wire + Default, V: Level, const S: usize> Level for Paged<K, V, S> {
    type M = BTreeMap<K, Vec<V::M>>;
    fn name() -> String {
        format!("Paged<{}, {}, {}>", K::NAME, V::name(), S)
    }
    const INTO: bool = true;
    fn make(r: &mut Rng) -> (Self, Self::M) {
        let (mut x, mut m) = (Paged::new(), BTreeMap::new());
        for _ in 0..r.below(4) {
            let _ = Self::change(&mut x, r, &mut m, &mut vec![]);
        }
        (x, m)
    }
    fn change(&mut self, r: &mut Rng, m: &mut Self::M, way: &mut Way) -> R {
        way.push("insert into pages");
        let k: K = key(r);
        let (x, y) = V::make(r);
        self.insert(k.clone(), x);
        m.entry(k).or_default().push(y);
        Ok(())
    }
    fn audit(&self, m: &Self::M, t: &T) -> R {
        let v = self.pages(m)?;
        let items = t.items();
        ensure!(items.len() == v.len(), "the full tree has {} pages, should have {}", items.len(), v.len());
        for (i, it) in items.iter().enumerate() {
            match it {
                Item::Key(l, sub) => ensure!(*l == &v.labels[i][..] && **sub == v.vals[i], "page {} of the full tree is {}=>{:?}, should be {}=>{:?}", i, hex(l), sub, hex(&v.labels[i]), v.vals[i]),
                other => fail!("page {} of the full tree is {:?}", i, other),
            }
        }
        ensure!(self.root_hash() == t.hash(), "the root hash of the pages is not the hash of their full tree");
        Ok(())
    }
    fn prove<'a>(&'a self, r: &mut Rng, m: &Self::M, c: &mut Claim) -> HashTree<'a> {
        let k: K = key(r);
        let count = |k: &K| m.get(k).map_or(0, |x| (x.len() + S - 1) / S);
        let at: usize = m.range(..k.clone()).map(|x| count(x.0)).sum();
        let n = count(&k);
        let page = r.below(n + 2);
        *c = Claim::Query(if page < n {
            Req::Present { at: at + page, shows: Shows::Value }
        } else {
            Req::Absent { at: at + n, label: crate::paged::label(&k, page as u32) }
        });
        if page == n && r.chance(1, 2) {
            self.witness_last_page_number(&k)
        } else {
            self.witness(&k, page)
        }
    }
    fn judge(&self, m: &Self::M, c: &Claim, t: &T) -> R {
        match c {
            Claim::Query(q) => {
                let v = self.pages(m)?;
                complete(&v, q, t)?;
                minimal(&v, q, t)
            }
            _ => self.audit(m, t),
        }
    }
}

trait Pages<K, M> {
    /// The pages there should be; fails if the items are others.
    fn pages(&self, m: &BTreeMap<K, Vec<M>>) -> R<View>;
}
impl<K: Key + Wire, V: Level, const S: usize> Pages<K, V::M> for Paged<K, V, S> {
    fn pages(&self, m: &BTreeMap<K, Vec<V::M>>) -> R<View> {
        let mut v = View { labels: vec![], vals: vec![], byte_ordered: K::BYTE_ORDERED && K::FIXED };
        for (k, items) in m {
            for (i, p) in items.chunks(S).enumerate() {
                let Some(s) = self.get(k, i) else { fail!("page {} of {:?} is missing", i, k) };
                ensure!(s.len() == p.len(), "page {} of {:?} has {} items, should have {}", i, k, s.len(), p.len());
                let mut hs = vec![];
                for (x, y) in s.iter().zip(p) {
                    let sub = tree::from(&x.as_hash_tree());
                    x.audit(y, &sub).map_err(|f| Fail(format!("page {} of {:?}: {}", i, k, f.0)))?;
                    hs.push(sub.hash());
                }
                v.labels.push(crate::paged::label(k, i as u32));
                v.vals.push(T::Pruned(chain(hs)));
            }
        }
        Ok(v)
    }
}

/// What maps and trees have in common here.
pub trait Dict<K: Key + Wire, V: Level>: Sized {
    fn tree(&self) -> &RbTree<K, V>;
    fn as_map(&self) -> Option<&Map<K, V>>;
    fn entry(&mut self, k: K) -> Entry<'_, K, V>;
    fn put(&mut self, k: K, v: V) -> Option<V>;
    fn take_out(&mut self, k: &K) -> Option<(K, V)>;
    fn at(&mut self, k: &K) -> Option<&mut V>;
    /// Change the value of the largest key with a prefix of one byte, if the
    /// type offers that.
    fn fresh() -> Self;
    fn deep_push(&mut self, _k: K, _r: &mut Rng) -> Option<u16> {
        None
    }
    fn modify_max(&mut self, p: &[u8], f: &mut dyn FnMut(&K, &mut V) -> R) -> Option<R>;
}

impl<K: Key + Wire, V: Level> Dict<K, V> for Map<K, V> {
    fn tree(&self) -> &RbTree<K, V> {
        self.as_tree()
    }
    fn as_map(&self) -> Option<&Map<K, V>> {
        Some(self)
    }
    fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        Map::entry(self, k)
    }
    fn put(&mut self, k: K, v: V) -> Option<V> {
        self.insert(k, v)
    }
    fn take_out(&mut self, k: &K) -> Option<(K, V)> {
        self.remove_entry(k)
    }
    fn at(&mut self, k: &K) -> Option<&mut V> {
        self.get_mut(k)
    }
    fn fresh() -> Self {
        Map::new()
    }
    fn deep_push(&mut self, k: K, r: &mut Rng) -> Option<u16> {
        V::push_at(self, k, r)
    }
    fn modify_max(&mut self, _: &[u8], _: &mut dyn FnMut(&K, &mut V) -> R) -> Option<R> {
        None
    }
}

impl<K: Key + Wire, V: Level> Dict<K, V> for RbTree<K, V> {
    fn tree(&self) -> &RbTree<K, V> {
        self
    }
    fn as_map(&self) -> Option<&Map<K, V>> {
        None
    }
    fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        RbTree::entry(self, k)
    }
    fn put(&mut self, k: K, v: V) -> Option<V> {
        self.insert(k, v).0
    }
    fn take_out(&mut self, k: &K) -> Option<(K, V)> {
        self.delete(k)
    }
    fn at(&mut self, k: &K) -> Option<&mut V> {
        self.modify(k, |x| x)
    }
    fn fresh() -> Self {
        RbTree::new()
    }
    fn modify_max(&mut self, p: &[u8], f: &mut dyn FnMut(&K, &mut V) -> R) -> Option<R> {
        if K::PREFIX {
            K::modify_max(self, p, f)
        } else {
            None
        }
    }
}

fn twist<V: Level>(x: &mut V, r: &mut Rng, m: &mut V::M, way: &mut Way) -> R {
    for _ in 0..*r.pick(&[1usize, 1, 1, 2, 3]) {
        x.change(r, m, way)?;
    }
    // Looked at, or not, while it is out or held.
    if r.chance(1, 4) {
        x.root_hash();
    }
    Ok(())
}

fn dict_change<K: Key + Wire, V: Level, D: Dict<K, V>>(d: &mut D, r: &mut Rng, m: &mut BTreeMap<K, V::M>, way: &mut Way) -> R {
    let k: K = if !m.is_empty() && r.chance(1, 2) {
        m.keys().nth(r.below(m.len())).unwrap().clone()
    } else {
        key(r)
    };
    match r.below(22) {
        0..=3 => {
            way.push("insert");
            let (x, y) = V::make(r);
            let old = d.put(k.clone(), x);
            ensure!(old.is_some() == m.insert(k.clone(), y).is_some(), "insert({:?}) returns {}", k, old.is_some());
        }
        4 => {
            way.push("remove");
            let got = d.take_out(&k);
            let old = m.remove(&k);
            ensure!(got.is_some() == old.is_some(), "remove({:?}) returns {}", k, got.is_some());
            if let (Some((_, x)), Some(y)) = (got, old) {
                x.audit(&y, &tree::from(&x.as_hash_tree())).map_err(|f| Fail(format!("removed from {:?}: {}", k, f.0)))?;
            }
        }
        5..=7 => {
            way.push("get_mut");
            let x = d.at(&k);
            ensure!(x.is_some() == m.contains_key(&k), "get_mut({:?}) is {}", k, x.is_some());
            if let Some(x) = x {
                twist(x, r, m.get_mut(&k).unwrap(), way)?;
            }
        }
        8 | 9 => {
            way.push("or_default");
            let x = d.entry(k.clone()).or_default();
            twist(x, r, m.entry(k).or_default(), way)?;
        }
        10 => {
            way.push("and_modify");
            let there = m.contains_key(&k);
            let mut res = Ok(());
            let (x, y) = V::make(r);
            {
                let (res, r, way) = (&mut res, &mut *r, &mut *way);
                let at = m.get_mut(&k);
                d.entry(k.clone())
                    .and_modify(|v| match at {
                        Some(y) => *res = twist(v, r, y, way),
                        None => *res = Err(Fail("and_modify ran for an absent key".into())),
                    })
                    .or_insert_with(|| x);
            }
            res?;
            if !there {
                m.insert(k, y);
            }
        }
        11 | 12 => match d.entry(k.clone()) {
            Entry::Occupied(mut e) => {
                ensure!(m.contains_key(&k), "{:?} is occupied", k);
                let y = m.get_mut(&k).unwrap();
                match r.below(3) {
                    0 => {
                        way.push("occupied, get_mut");
                        twist(e.get_mut(), r, y, way)?;
                        e.get().root_hash();
                    }
                    1 => {
                        way.push("occupied, get_mut twice");
                        twist(e.get_mut(), r, y, way)?;
                        twist(e.get_mut(), r, y, way)?;
                    }
                    _ => {
                        way.push("occupied, into_mut");
                        twist(e.into_mut(), r, y, way)?;
                    }
                }
            }
            Entry::Vacant(e) => {
                ensure!(!m.contains_key(&k), "{:?} is vacant", k);
                way.push("vacant, insert");
                let (x, mut y) = V::make(r);
                let x = e.insert(x);
                twist(x, r, &mut y, way)?;
                m.insert(k, y);
            }
        },
        13 => {
            way.push("move to another key");
            if let Some((_, mut x)) = d.take_out(&k) {
                let mut y = m.remove(&k).ok_or_else(|| Fail(format!("{:?} was removed, but never there", k)))?;
                twist(&mut x, r, &mut y, way)?;
                let k: K = key(r);
                d.put(k.clone(), x);
                m.insert(k, y);
            }
        }
        14 => {
            way.push("swap two values");
            let other: K = key(r);
            let mut hand = std::mem::take(d.entry(k.clone()).or_default());
            let mut hand_m = std::mem::take(m.entry(k.clone()).or_default());
            std::mem::swap(&mut hand, d.entry(other.clone()).or_default());
            std::mem::swap(&mut hand_m, m.entry(other).or_default());
            if let Some(x) = d.at(&k) {
                *x = hand;
            }
            m.insert(k, hand_m);
        }
        15 => {
            way.push("replace through a reference");
            if let Some(x) = d.at(&k) {
                let (new, y) = V::make(r);
                let old = std::mem::replace(x, new);
                let was = m.insert(k, y).unwrap_or_default();
                old.audit(&was, &tree::from(&old.as_hash_tree()))?;
            }
        }
        16 => {
            way.push("append_deep");
            if let Some(x) = d.deep_push(k.clone(), r) {
                V::pushed(m.entry(k).or_default(), x);
            }
        }
        17 if r.chance(1, 3) => {
            way.push("rebuild");
            let keys: Vec<K> = m.keys().cloned().collect();
            let mut new = D::fresh();
            for k in keys {
                match d.take_out(&k) {
                    Some((k, v)) => {
                        new.put(k, v);
                    }
                    None => fail!("{:?} is missing", k),
                }
            }
            *d = new;
        }
        18 if r.chance(1, 3) => {
            way.push("clear");
            *d = D::fresh();
            m.clear();
        }
        19 => {
            way.push("through an encoding");
            let f = *r.pick(&[Fmt::Cbor, Fmt::Candid]);
            if let Some(x) = d.at(&k) {
                let b = enc(f, x).map_err(|e| Fail(format!("the value at {:?} does not encode: {}", k, e)))?;
                *x = dec(f, &b).map_err(|e| Fail(format!("the encoded value at {:?} does not decode: {}", k, e)))?;
            }
        }
        20 => {
            way.push("modify_max_with_prefix");
            let p = K::gen_prefix(r, &k);
            let max = m.keys().filter(|x| K::PREFIX && x.has_prefix(&p)).last().cloned();
            let mut ran = None;
            let res = {
                let (ran, m, r, way) = (&mut ran, &mut *m, &mut *r, &mut *way);
                d.modify_max(&p, &mut |k, v| {
                    *ran = Some(k.clone());
                    match m.get_mut(k) {
                        Some(y) => twist(v, r, y, way),
                        None => Err(Fail(format!("modify_max_with_prefix gives the absent key {:?}", k))),
                    }
                })
            };
            if let Some(res) = res {
                res?;
                ensure!(ran == max, "modify_max_with_prefix({}) changed {:?}, the largest key is {:?}", hex(&p), ran, max);
            }
        }
        _ => {
            way.push("get_mut of another level's neighbour");
            // Hash everything while one value is new and another about to change.
            d.tree().root_hash();
            let (x, y) = V::make(r);
            d.put(k.clone(), x);
            m.insert(k.clone(), y);
            if let Some(x) = d.at(&k) {
                twist(x, r, m.get_mut(&k).unwrap(), way)?;
            }
        }
    }
    Ok(())
}

fn dict_audit<K: Key + Wire, V: Level, D: Dict<K, V>>(d: &D, m: &BTreeMap<K, V::M>, t: &T) -> R {
    let tr = d.tree();
    ensure!(tr.len() == m.len(), "the map has {} entries, should have {}", tr.len(), m.len());
    let items = t.items();
    ensure!(items.len() == m.len(), "the full tree has {} entries, should have {}", items.len(), m.len());
    for (it, (k, y)) in items.iter().zip(m) {
        let Some(x) = tr.get(k) else { fail!("{:?} is missing", k) };
        match it {
            Item::Key(l, sub) => {
                ensure!(**l == k.bytes()[..], "the full tree has the label {} in place of {:?}", hex(l), k);
                x.audit(y, sub).map_err(|f| Fail(format!("at {:?}: {}", k, f.0)))?;
            }
            other => fail!("the full tree has {:?} in place of {:?}", other, k),
        }
    }
    ensure!(tr.root_hash() == t.hash(), "the root hash {} is not the hash {} of the full tree", hex(&tr.root_hash()), hex(&t.hash()));
    Ok(())
}

fn dict_prove<'a, K: Key + Wire, V: Level, D: Dict<K, V>>(d: &'a D, r: &mut Rng, m: &BTreeMap<K, V::M>, c: &mut Claim) -> HashTree<'a> {
    if V::INTO && !m.is_empty() && r.chance(4, 5) {
        let k = m.keys().nth(r.below(m.len())).unwrap();
        let mut inner = Claim::Whole;
        let mut apart = None;
        let t = d.tree().nested_witness(k, |v| {
            if r.chance(1, 5) {
                let own = v.prove(r, &m[k], &mut inner);
                apart = Some(serde_cbor::to_vec(&own).unwrap_or_default());
                HashTree::Pruned(v.root_hash())
            } else {
                v.prove(r, &m[k], &mut inner)
            }
        });
        *c = Claim::Within { label: k.bytes(), apart, inner: Box::new(inner) };
        return t;
    }
    if r.chance(1, 12) {
        *c = Claim::Whole;
        return d.tree().as_hash_tree();
    }
    let mut keys: Vec<K> = m.keys().cloned().collect();
    for _ in 0..3 {
        keys.push(key(r));
    }
    keys.sort();
    keys.dedup();
    let kind = if r.chance(1, 2) { 0 } else { r.below(9) };
    let ask = gen_ask(r, &keys, kind);
    let refs: Vec<&K> = m.keys().collect();
    *c = Claim::Query(req(m, &refs, &ask));
    match d.as_map() {
        Some(x) if r.chance(1, 2) => ask_map(x, &ask),
        _ => ask_tree(d.tree(), &ask),
    }
}

fn dict_judge<K: Key + Wire, V: Level, D: Dict<K, V>>(d: &D, m: &BTreeMap<K, V::M>, c: &Claim, t: &T) -> R {
    match c {
        Claim::Whole => dict_audit(d, m, t),
        Claim::Query(q) => {
            let mut v = View { labels: vec![], vals: vec![], byte_ordered: K::BYTE_ORDERED };
            for (k, y) in m {
                let Some(x) = d.tree().get(k) else { fail!("{:?} is missing", k) };
                let sub = tree::from(&x.as_hash_tree());
                x.audit(y, &sub).map_err(|f| Fail(format!("at {:?}: {}", k, f.0)))?;
                v.labels.push(k.bytes());
                v.vals.push(sub);
            }
            complete(&v, q, t)?;
            minimal(&v, q, t)
        }
        Claim::Within { label, apart, inner } => {
            let mut found = None;
            for it in t.items() {
                match it {
                    Item::Key(l, sub) => {
                        ensure!(l == &label[..] && found.is_none(), "the proof shows the key {} while leading to {}", hex(l), hex(label));
                        found = Some(sub);
                    }
                    Item::Gap => {}
                    Item::Leaf(_) => fail!("the proof shows a bare leaf"),
                }
            }
            let Some(sub) = found else { fail!("the proof does not show the key {}", hex(label)) };
            ensure!(find_label(label, t) == Lookup::Found(sub), "the specification's lookup does not find {}", hex(label));
            let Some((k, y)) = m.iter().find(|x| x.0.bytes() == *label) else { fail!("the proof leads through the absent key {}", hex(label)) };
            let Some(x) = d.tree().get(k) else { fail!("{:?} is missing", k) };
            let own;
            let sub = match apart {
                None => sub,
                Some(b) => {
                    own = tree::decode(b).map_err(|e| Fail(format!("the serialized inner proof does not decode: {}", e)))?;
                    ensure!(*sub == T::Pruned(own.hash()), "the outer proof shows {:?} at {:?}, the inner proof has the hash {}", sub, k, hex(&own.hash()));
                    &own
                }
            };
            x.judge(y, inner, sub).map_err(|f| Fail(format!("at {:?}: {}", k, f.0)))
        }
    }
}

macro_rules! dict_level {
    ($d:ident, $name:expr) => {
        type M = BTreeMap<K, V::M>;
        fn name() -> String {
            format!("{}<{}, {}>", $name, K::NAME, V::name())
        }
        const INTO: bool = true;
        fn make(r: &mut Rng) -> (Self, Self::M) {
            let (mut x, mut m) = (Self::default(), BTreeMap::new());
            for _ in 0..*r.pick(&[0usize, 0, 1, 2, 3]) {
                let k: K = key(r);
                let (a, b) = V::make(r);
                x.put(k.clone(), a);
                m.insert(k, b);
            }
            if r.chance(1, 4) {
                x.root_hash();
            }
            (x, m)
        }
        fn change(&mut self, r: &mut Rng, m: &mut Self::M, way: &mut Way) -> R {
            dict_change(self, r, m, way)
        }
        fn audit(&self, m: &Self::M, t: &T) -> R {
            dict_audit(self, m, t)
        }
        fn prove<'a>(&'a self, r: &mut Rng, m: &Self::M, c: &mut Claim) -> HashTree<'a> {
            dict_prove(self, r, m, c)
        }
        fn judge(&self, m: &Self::M, c: &Claim, t: &T) -> R {
            dict_judge(self, m, c, t)
        }
    };
}
impl<K: Key + Wire + Default, V: Level> Level for Map<K, V> {
    dict_level!(Map, "Map");
}

/// A tree as a value of a map; it is encoded by way of a map.
#[derive(Default)]
pub struct Bare<K: Key, V: Level>(RbTree<K, V>);
impl<K: Key, V: Level> AsHashTree for Bare<K, V> {
    fn root_hash(&self) -> Hash {
        self.0.root_hash()
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.0.as_hash_tree()
    }
}
impl<K: Key + serde::Serialize, V: Level> serde::Serialize for Bare<K, V> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_map(certified_vars::rbtree::iterator::RbTreeIterator::new(&self.0))
    }
}
impl<'de, K: Key + Wire, V: Level> serde::Deserialize<'de> for Bare<K, V> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis<K, V>(std::marker::PhantomData<(K, V)>);
        impl<'de, K: Key + Wire, V: Level> serde::de::Visitor<'de> for Vis<K, V> {
            type Value = Bare<K, V>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Bare<K, V>, A::Error> {
                let mut t = RbTree::new();
                while let Some((k, v)) = a.next_entry()? {
                    t.insert(k, v);
                }
                Ok(Bare(t))
            }
        }
        d.deserialize_map(Vis(std::marker::PhantomData))
    }
}
impl<K: Key + Wire, V: Level> candid::CandidType for Bare<K, V> {
    fn _ty() -> candid::types::Type {
        <BTreeMap<K, V> as candid::CandidType>::_ty()
    }
    fn idl_serialize<S: candid::types::Serializer>(&self, s: S) -> Result<(), S::Error> {
        use candid::types::Compound;
        let mut s = s.serialize_vec(self.0.len())?;
        let mut res = Ok(());
        self.0.for_each(|_, _| ());
        for e in certified_vars::rbtree::iterator::RbTreeIterator::new(&self.0) {
            if res.is_ok() {
                res = s.serialize_element(&e);
            }
        }
        res
    }
}
impl<K: Key + Wire, V: Level> Dict<K, V> for Bare<K, V> {
    fn tree(&self) -> &RbTree<K, V> {
        &self.0
    }
    fn as_map(&self) -> Option<&Map<K, V>> {
        None
    }
    fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        self.0.entry(k)
    }
    fn put(&mut self, k: K, v: V) -> Option<V> {
        Dict::put(&mut self.0, k, v)
    }
    fn take_out(&mut self, k: &K) -> Option<(K, V)> {
        self.0.delete(k)
    }
    fn at(&mut self, k: &K) -> Option<&mut V> {
        Dict::at(&mut self.0, k)
    }
    fn fresh() -> Self {
        Bare(RbTree::new())
    }
    fn modify_max(&mut self, p: &[u8], f: &mut dyn FnMut(&K, &mut V) -> R) -> Option<R> {
        self.0.modify_max(p, f)
    }
}
impl<K: Key + Wire + Default, V: Level> Level for Bare<K, V> {
    dict_level!(Bare, "RbTree");
}

/// Root hash and full tree after a change, and the contents they stand for.
fn look<X: Level>(ctx: &mut Ctx, x: &X, m: &X::M, kind: u64, tree_first: bool) -> R<Hash> {
    let (root, t) = if tree_first {
        let t = tree::from(&x.as_hash_tree());
        (x.root_hash(), t)
    } else {
        (x.root_hash(), tree::from(&x.as_hash_tree()))
    };
    ensure!(t.hash() == root, "the outermost root hash {} is not the hash {} of the full tree {}", hex(&root), hex(&t.hash()), clip(format!("{:?}", t), 1500));
    x.audit(m, &t)?;
    let mut s = Sig::new();
    s.add(format!("{:?}", m).as_bytes());
    let mut h = root;
    h[0] ^= kind as u8;
    if ctx.roots.len() < 400_000 {
        let old = ctx.roots.insert(h, s.0);
        ensure!(old.map_or(true, |o| o == s.0), "two collections with different contents have the root hash {}", hex(&root));
    }
    ctx.count("outermost roots compared with the full tree", 1);
    s.num(kind);
    if t.items().len() >= 2 {
        ctx.seen(s.0);
    } else {
        ctx.trivial();
    }
    Ok(root)
}

fn note_claim(ctx: &mut Ctx, c: &Claim, in_group: bool) {
    let d = c.depth() + in_group as usize;
    ctx.max("levels a proof went through", d as u64);
    let what = match c.last() {
        Claim::Query(Req::Absent { .. }) if d > 0 => "absence proved within a value",
        Claim::Query(Req::Absent { .. }) => "absence proved at the outermost level",
        Claim::Query(Req::Present { .. }) if d > 0 => "presence proved within a value",
        Claim::Query(Req::Present { .. }) => "presence proved at the outermost level",
        Claim::Query(_) => "ranges, prefixes and key lists proved",
        _ => "whole values proved",
    };
    ctx.count(what, 1);
    if c.apart() {
        ctx.count("proofs in separate parts", 1);
    }
}

fn proof<X: Level>(ctx: &mut Ctx, r: &mut Rng, x: &X, m: &X::M, kind: u64, root_first: bool) -> R {
    let before = if root_first { Some(x.root_hash()) } else { None };
    let mut c = Claim::Whole;
    let w = x.prove(r, m, &mut c);
    let bytes = serde_cbor::to_vec(&w).map_err(|e| Fail(format!("the proof does not serialize: {}", e)))?;
    let t = tree::decode(&bytes).map_err(|e| Fail(format!("the serialized proof does not decode: {}", e)))?;
    let root = before.unwrap_or_else(|| x.root_hash());
    let tag = |f: Fail| Fail(format!("proof of {:?}: {} (proof {})", c, f.0, clip(format!("{:?}", t), 1500)));
    if t.hash() != root {
        return Err(tag(Fail(format!("its hash is {}, the outermost root hash is {}", hex(&t.hash()), hex(&root)))));
    }
    x.judge(m, &c, &t).map_err(tag)?;
    note_claim(ctx, &c, false);
    let mut s = Sig::new();
    s.num(kind);
    s.add(&bytes);
    if c.depth() > 0 {
        ctx.seen(s.0);
    } else {
        ctx.trivial();
    }
    Ok(())
}

fn steps(ctx: &Ctx, r: &mut Rng) -> Vec<u64> {
    let n = if ctx.small { r.range(3, 8) } else { *r.pick(&[5usize, 20, 60, 60, 150]) };
    SPREAD.with(|s| s.set(if ctx.small { 3 } else { *r.pick(&[2usize, 3, 5, 8, 9, 16, 33, 60]) }));
    (0..n).map(|_| r.u64()).collect()
}

fn history<X: Level>(ctx: &mut Ctx, r: &mut Rng, kind: u64) -> R {
    let seeds = steps(ctx, r);
    let qs = r.u64();
    let every = *r.pick(&[1usize, 1, 2, 5, 20]);
    ctx.sample(|| format!("{}: {} changes", X::name(), seeds.len()));
    let what = X::name();
    run_shrunk(seeds, &what, |seeds| {
        let mut x = X::default();
        let mut m = X::M::default();
        let mut q = Rng::new(qs);
        let mut last: Way = vec![];
        for (i, s) in seeds.iter().enumerate() {
            if crate::report::late() {
                return Ok(());
            }
            let before = m.clone();
            let mut way = vec![];
            let tag = |f: Fail, way: &Way, m: &X::M| Fail(format!("after step {} ({:?}) of {}: {} (contents before {}, now {})", i, way, X::name(), f.0, clip(format!("{:?}", before), 800), clip(format!("{:?}", m), 800)));
            x.change(&mut Rng::new(*s), &mut m, &mut way).map_err(|f| tag(f, &way, &m))?;
            ctx.max("steps of one change", way.len() as u64);
            if let Some(w) = way.first() {
                ctx.count(w, 1);
            }
            if way.len() > 1 {
                ctx.count("changes at an inner level", 1);
            }
            if i + 1 == seeds.len() || q.chance(1, every) {
                let first = q.below(3);
                if first == 0 {
                    proof(ctx, &mut q, &x, &m, kind, false).map_err(|f| tag(f, &way, &m))?;
                }
                let tf = q.chance(1, 2);
                look(ctx, &x, &m, kind, tf).map_err(|f| tag(f, &way, &m))?;
                for _ in 0..2 {
                    let rf = q.chance(1, 2);
                    proof(ctx, &mut q, &x, &m, kind, rf).map_err(|f| tag(f, &way, &m))?;
                }
            } else if q.chance(1, 4) {
                x.root_hash();
            }
            last = way;
        }
        // Through the wire and on.
        let f = if q.chance(1, 2) { Fmt::Cbor } else { Fmt::Candid };
        let b = enc(f, &x).map_err(|e| Fail(format!("does not encode: {}", e)))?;
        let y: X = dec(f, &b).map_err(|e| Fail(format!("the encoding as {:?} does not decode: {}; contents {}", f, e, clip(format!("{:?}", m), 1500))))?;
        look(ctx, &y, &m, kind, false).map_err(|e| Fail(format!("decoded from {:?} (last change {:?}): {}", f, last, e.0)))?;
        proof(ctx, &mut q, &y, &m, kind, true).map_err(|e| Fail(format!("decoded from {:?}: {}", f, e.0)))?;
        let mut y = y;
        y.change(&mut q, &mut m, &mut vec![])?;
        look(ctx, &y, &m, kind, true).map_err(|e| Fail(format!("decoded from {:?} and changed: {}", f, e.0)))?;
        ctx.count("nested collections decoded", 1);
        Ok(())
    })
}

// ------------------------------------------------------------------- groups

type Path = Vec<String>;

fn path(r: &mut Rng, others: &[Path]) -> Path {
    loop {
        let names = ["a", "b", "", "long name of a directory", "é", "ab"];
        let p: Path = (0..r.range(1, 4)).map(|_| names[r.below(names.len())].to_string()).collect();
        if others.iter().all(|q| !q.starts_with(&p) && !p.starts_with(q)) {
            return p;
        }
    }
}

/// What a proof of one leaf shows below its path.
fn descend<'a>(t: &'a T, p: &Path) -> R<&'a T> {
    let mut t = t;
    for n in p {
        let mut found = None;
        for it in t.items() {
            match it {
                Item::Key(l, sub) => {
                    ensure!(l == n.as_bytes() && found.is_none(), "the group's proof shows {:?} while leading to {:?} of {:?}", String::from_utf8_lossy(l), n, p);
                    found = Some(sub);
                }
                Item::Gap => {}
                Item::Leaf(_) => fail!("the group's proof shows a bare leaf"),
            }
        }
        let Some(sub) = found else { fail!("the group's proof does not show {:?} of {:?}", n, p) };
        t = sub;
    }
    Ok(t)
}

fn at_path<'a>(t: &'a T, p: &Path) -> R<&'a T> {
    let mut t = t;
    for n in p {
        match find_label(n.as_bytes(), t) {
            Lookup::Found(x) => t = x,
            other => fail!("looking up {:?} of {:?} gives {:?}", n, p, other),
        }
    }
    Ok(t)
}

fn member<X: Level>(ctx: &mut Ctx, r: &mut Rng, g: &Group, m: &X::M, p: &Path, root: &Hash) -> R {
    let mut c = Claim::Whole;
    let w = g.witness().partial::<X, _>(|x| x.prove(r, m, &mut c)).build();
    let bytes = serde_cbor::to_vec(&w).map_err(|e| Fail(format!("the proof does not serialize: {}", e)))?;
    let t = tree::decode(&bytes).map_err(|e| Fail(format!("the serialized proof does not decode: {}", e)))?;
    let tag = |f: Fail| Fail(format!("proof of {:?} at {:?}: {} (proof {})", c, p, f.0, clip(format!("{:?}", t), 1500)));
    if t.hash() != *root {
        return Err(tag(Fail(format!("its hash is {}, the group's root hash is {}", hex(&t.hash()), hex(root)))));
    }
    let sub = descend(&t, p).map_err(tag)?;
    g.get::<X>().judge(m, &c, sub).map_err(tag)?;
    note_claim(ctx, &c, true);
    ctx.count("proofs through a group", 1);
    let mut s = Sig::new();
    s.add(&bytes);
    ctx.seen(s.0);
    Ok(())
}

fn group<A: Level, B: Level, C: Level>(ctx: &mut Ctx, r: &mut Rng) -> R {
    let seeds = steps(ctx, r);
    let qs = r.u64();
    let mut ps: Vec<Path> = vec![];
    for _ in 0..3 {
        let p = path(r, &ps);
        ps.push(p);
    }
    let what = format!("group of {} at {:?}, {} at {:?}, {} at {:?}", A::name(), ps[0], B::name(), ps[1], C::name(), ps[2]);
    ctx.sample(|| what.clone());
    run_shrunk(seeds, &what, |seeds| {
        let mut q = Rng::new(qs);
        let (a, mut ma) = A::make(&mut q);
        let (b, mut mb) = B::make(&mut q);
        let (c, mut mc) = C::make(&mut q);
        let mut g = GroupBuilder::new().insert(ps[0].clone(), a).insert(ps[1].clone(), b).insert(ps[2].clone(), c).build();
        for (i, s) in seeds.iter().enumerate() {
            let mut r = Rng::new(*s);
            let mut way: Way = vec![];
            let res = match r.below(3) {
                0 => g.get_mut::<A>().change(&mut r, &mut ma, &mut way),
                1 => g.get_mut::<B>().change(&mut r, &mut mb, &mut way),
                _ => g.get_mut::<C>().change(&mut r, &mut mc, &mut way),
            };
            let tag = |f: Fail| Fail(format!("after step {} ({:?}): {}", i, way, f.0));
            res.map_err(tag)?;
            if i % 3 != 0 && i + 1 != seeds.len() {
                continue;
            }
            let root = g.root_hash();
            let full = tree::from(&g.as_hash_tree());
            ensure!(full.hash() == root, "after step {} ({:?}): the group's root hash is not the hash of its full tree {}", i, way, clip(format!("{:?}", full), 1500));
            at_path(&full, &ps[0]).and_then(|t| g.get::<A>().audit(&ma, t)).map_err(tag)?;
            at_path(&full, &ps[1]).and_then(|t| g.get::<B>().audit(&mb, t)).map_err(tag)?;
            at_path(&full, &ps[2]).and_then(|t| g.get::<C>().audit(&mc, t)).map_err(tag)?;
            member::<A>(ctx, &mut q, &g, &ma, &ps[0], &root).map_err(tag)?;
            member::<B>(ctx, &mut q, &g, &mb, &ps[1], &root).map_err(tag)?;
            member::<C>(ctx, &mut q, &g, &mc, &ps[2], &root).map_err(tag)?;
        }
        Ok(())
    })
}

pub fn c18(ctx: &mut Ctx, r: &mut Rng) -> R {
    type Two = Map<u8, Map<u8, u32>>;
    match r.below(19) {
        0 => history::<Two>(ctx, r, 0),
        1 => history::<Map<String, Map<u32, Seq<u16>>>>(ctx, r, 1),
        2 => history::<Map<u8, Map<u16, Map<u8, u32>>>>(ctx, r, 2),
        3 => history::<Map<[u8; 2], Paged<u8, u32, 2>>>(ctx, r, 3),
        4 => history::<Map<Vec<u8>, Map<String, String>>>(ctx, r, 4),
        5 => history::<Bare<Vec<u8>, Bare<[u8; 2], u32>>>(ctx, r, 5),
        6 => history::<Map<u8, Bare<String, Seq<u16>>>>(ctx, r, 6),
        7 => history::<Map<u8, Seq<Map<u8, u32>>>>(ctx, r, 7),
        8 => history::<Map<u32, Box<Map<u8, String>>>>(ctx, r, 8),
        9 => history::<Map<u8, Map<u8, Map<u8, Map<u8, Seq<u16>>>>>>(ctx, r, 9),
        10 => history::<Paged<u8, Map<u8, u32>, 2>>(ctx, r, 10),
        11 => history::<Map<u64, Seq<Seq<u16>>>>(ctx, r, 11),
        12 => history::<Seq<Two>>(ctx, r, 12),
        13 => history::<Map<u16, Seq<u16>>>(ctx, r, 13),
        14 => history::<Bare<[u8; 2], Map<bool, Seq<Seq<u16>>>>>(ctx, r, 14),
        15 => history::<Map<u8, Map<String, Paged<u16, Map<u8, u32>, 3>>>>(ctx, r, 15),
        16 => group::<Two, Map<String, Seq<u16>>, Paged<u16, u8, 2>>(ctx, r),
        17 => group::<Map<u8, Map<u8, Map<u8, u32>>>, Seq<Map<u8, u32>>, Map<u8, Paged<u8, u8, 1>>>(ctx, r),
        _ => group::<Box<Two>, Two, Bare<String, Map<u8, Seq<u16>>>>(ctx, r),
    }
}
