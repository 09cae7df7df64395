//! Histories over maps: operations, the subjects that execute them, the
//! sorted-dictionary model, and the generator.

use crate::kinds::{pool, Key, Val};
use crate::report::{guarded, late, shrink, Ctx, Fail, R};
use crate::util::Rng;
use certified_vars::rbtree::entry::Entry;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Hash, Map};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Op<K, V> {
    Insert(K, V),
    /// Insert, then write through the reference that insertion returns.
    InsertMut(K, V, Option<V>),
    Remove(K),
    RemoveEntry(K),
    /// Take a mutable reference and maybe write through it.
    GetMut(K, Option<V>),
    Modify(K, Option<V>),
    /// Change the value of the largest key with a prefix.
    ModMax(Vec<u8>, Option<V>),
    OrInsert(K, V, Option<V>),
    OrInsertWith(K, V, Option<V>),
    OrInsertWithKey(K, V, Option<V>),
    OrDefault(K, Option<V>),
    AndModifyOrInsert(K, V, V),
    AndModify(K, V),
    OccGetMut(K, V, Option<V>),
    OccIntoMut(K, Option<V>),
    OccRemove(K),
    OccRemoveEntry(K),
    VacInsert(K, V, Option<V>),
    VacIntoKey(K),
    EntryDrop(K),
    Clear,
    /// Rebuild from a list of pairs.
    Bulk(Vec<(K, V)>),
    /// Append to the sequence at a key.
    AppendDeep(K, u16),
}

/// What a call returned.
#[derive(Clone, Debug, PartialEq)]
pub struct Ret<K, V> {
    pub tag: u8,
    pub key: Option<K>,
    pub a: Option<V>,
    pub b: Option<V>,
}

pub const NONE: u8 = 0;
pub const SOME: u8 = 1;
pub const OCCUPIED: u8 = 2;
pub const VACANT: u8 = 3;

impl<K, V> Ret<K, V> {
    fn none() -> Self {
        Ret { tag: NONE, key: None, a: None, b: None }
    }
    fn old(a: Option<V>) -> Self {
        Ret { tag: if a.is_some() { SOME } else { NONE }, key: None, a, b: None }
    }
    fn tag(tag: u8) -> Self {
        Ret { tag, key: None, a: None, b: None }
    }
}

pub trait Subject<K: Key, V: Val>: Sized {
    const NAME: &'static str;
    fn new() -> Self;
    fn tree(&self) -> &RbTree<K, V>;
    fn root(&self) -> Hash;
    fn as_map(&self) -> Option<&Map<K, V>>;
    fn entry(&mut self, k: K) -> Entry<'_, K, V>;
    /// Operations that are not about entries.
    fn direct(&mut self, op: Op<K, V>) -> Ret<K, V>;

    fn apply(&mut self, op: Op<K, V>) -> Ret<K, V> {
        fn put<V: Val>(r: &mut V, w: Option<V>) -> Option<V> {
            let was = r.clone();
            if let Some(w) = w {
                *r = w;
            }
            Some(was)
        }
        match op {
            Op::OrInsert(k, v, w) => {
                let r = self.entry(k).or_insert(v);
                Ret { tag: SOME, key: None, a: put(r, w), b: None }
            }
            Op::OrInsertWith(k, v, w) => {
                let mut called = NONE;
                let r = self.entry(k).or_insert_with(|| {
                    called = SOME;
                    v
                });
                let a = put(r, w);
                Ret { tag: called, key: None, a, b: None }
            }
            Op::OrInsertWithKey(k, v, w) => {
                let mut seen = None;
                let r = self.entry(k).or_insert_with_key(|k| {
                    seen = Some(k.clone());
                    v
                });
                let a = put(r, w);
                Ret { tag: SOME, key: seen, a, b: None }
            }
            Op::OrDefault(k, w) => {
                let r = V::or_default(self.entry(k));
                Ret { tag: SOME, key: None, a: put(r, w), b: None }
            }
            Op::AndModifyOrInsert(k, m, v) => {
                let mut seen = None;
                let r = self
                    .entry(k)
                    .and_modify(|x| {
                        seen = Some(x.clone());
                        *x = m;
                    })
                    .or_insert(v);
                let b = Some(r.clone());
                Ret { tag: SOME, key: None, a: seen, b }
            }
            Op::AndModify(k, m) => {
                let mut seen = None;
                let e = self.entry(k).and_modify(|x| {
                    seen = Some(x.clone());
                    *x = m;
                });
                let key = Some(e.key().clone());
                let (tag, b) = match &e {
                    Entry::Occupied(o) => (OCCUPIED, Some(o.get().clone())),
                    Entry::Vacant(_) => (VACANT, None),
                };
                drop(e);
                Ret { tag, key, a: seen, b }
            }
            Op::OccGetMut(k, w1, w2) => match self.entry(k) {
                Entry::Occupied(mut o) => {
                    let a = put(o.get_mut(), Some(w1));
                    let b = Some(o.get().clone());
                    let key = Some(o.key().clone());
                    if let Some(w2) = w2 {
                        *o.get_mut() = w2;
                        // Its destructor has no part in it.
                        if !std::mem::needs_drop::<K>() {
                            std::mem::forget(o);
                        }
                    }
                    Ret { tag: OCCUPIED, key, a, b }
                }
                Entry::Vacant(_) => Ret::tag(VACANT),
            },
            Op::OccIntoMut(k, w) => match self.entry(k) {
                Entry::Occupied(o) => Ret { tag: OCCUPIED, key: None, a: put(o.into_mut(), w), b: None },
                Entry::Vacant(_) => Ret::tag(VACANT),
            },
            Op::OccRemove(k) => match self.entry(k) {
                Entry::Occupied(o) => Ret { tag: OCCUPIED, key: None, a: Some(o.remove()), b: None },
                Entry::Vacant(_) => Ret::tag(VACANT),
            },
            Op::OccRemoveEntry(k) => match self.entry(k) {
                Entry::Occupied(o) => {
                    let (k, v) = o.remove_entry();
                    Ret { tag: OCCUPIED, key: Some(k), a: Some(v), b: None }
                }
                Entry::Vacant(_) => Ret::tag(VACANT),
            },
            Op::VacInsert(k, v, w) => match self.entry(k) {
                Entry::Vacant(e) => {
                    let key = Some(e.key().clone());
                    let r = e.insert(v);
                    let a = put(r, w);
                    Ret { tag: VACANT, key, a, b: None }
                }
                Entry::Occupied(_) => Ret::tag(OCCUPIED),
            },
            Op::VacIntoKey(k) => match self.entry(k) {
                Entry::Vacant(e) => Ret { tag: VACANT, key: Some(e.into_key()), a: None, b: None },
                Entry::Occupied(_) => Ret::tag(OCCUPIED),
            },
            Op::EntryDrop(k) => {
                let e = self.entry(k);
                let key = Some(e.key().clone());
                let (tag, a) = match &e {
                    Entry::Occupied(o) => (OCCUPIED, Some(o.get().clone())),
                    Entry::Vacant(_) => (VACANT, None),
                };
                Ret { tag, key, a, b: None }
            }
            op => self.direct(op),
        }
    }
}

impl<K: Key, V: Val> Subject<K, V> for Map<K, V> {
    const NAME: &'static str = "Map";
    fn new() -> Self {
        Map::new()
    }
    fn tree(&self) -> &RbTree<K, V> {
        self.as_tree()
    }
    fn root(&self) -> Hash {
        self.root_hash()
    }
    fn as_map(&self) -> Option<&Map<K, V>> {
        Some(self)
    }
    fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        Map::entry(self, k)
    }
    fn direct(&mut self, op: Op<K, V>) -> Ret<K, V> {
        match op {
            Op::Insert(k, v) => Ret::old(self.insert(k, v)),
            Op::InsertMut(k, v, w) => {
                let r = Ret::old(self.insert(k.clone(), v));
                if let Some(w) = w {
                    *self.get_mut(&k).unwrap() = w;
                }
                r
            }
            Op::Remove(k) => Ret::old(self.remove(&k)),
            Op::RemoveEntry(k) => match self.remove_entry(&k) {
                Some((k, v)) => Ret { tag: SOME, key: Some(k), a: Some(v), b: None },
                None => Ret::none(),
            },
            // The map has no closure form; the reference is the same route.
            Op::GetMut(k, w) | Op::Modify(k, w) => match self.get_mut(&k) {
                Some(r) => {
                    let was = r.clone();
                    if let Some(w) = w {
                        *r = w;
                    }
                    Ret { tag: SOME, key: None, a: Some(was), b: None }
                }
                None => Ret::none(),
            },
            Op::ModMax(p, w) => {
                let k = K::max_prefix(self.as_tree(), &p).map(|(k, _)| k.clone());
                match k {
                    None => Ret::none(),
                    Some(k) => {
                        let r = self.get_mut(&k).unwrap();
                        let was = r.clone();
                        if let Some(w) = w {
                            *r = w;
                        }
                        Ret { tag: SOME, key: Some(k), a: Some(was), b: None }
                    }
                }
            }
            Op::Clear => {
                self.clear();
                Ret::none()
            }
            Op::AppendDeep(k, x) => {
                V::append_deep(self, k.clone(), x);
                Ret::tag(V::len_deep(self, &k) as u8)
            }
            Op::Bulk(xs) => {
                let style = xs.len();
                *self = crate::util::hinted(xs, style).collect();
                Ret::none()
            }
            _ => unreachable!(),
        }
    }
}

impl<K: Key, V: Val> Subject<K, V> for RbTree<K, V> {
    const NAME: &'static str = "RbTree";
    fn new() -> Self {
        RbTree::new()
    }
    fn tree(&self) -> &RbTree<K, V> {
        self
    }
    fn root(&self) -> Hash {
        self.root_hash()
    }
    fn as_map(&self) -> Option<&Map<K, V>> {
        None
    }
    fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        RbTree::entry(self, k)
    }
    fn direct(&mut self, op: Op<K, V>) -> Ret<K, V> {
        match op {
            Op::Insert(k, v) => Ret::old(self.insert(k, v).0),
            Op::InsertMut(k, v, w) => {
                let (old, r) = self.insert(k, v);
                if let Some(w) = w {
                    *r = w;
                }
                Ret::old(old)
            }
            Op::Remove(k) => Ret::old(K::remove_b(self, &k).map(|x| x.1)),
            Op::RemoveEntry(k) => match self.delete(&k) {
                Some((k, v)) => Ret { tag: SOME, key: Some(k), a: Some(v), b: None },
                None => Ret::none(),
            },
            Op::GetMut(k, w) => match self.modify(&k, |r| r) {
                Some(r) => {
                    let was = r.clone();
                    if let Some(w) = w {
                        *r = w;
                    }
                    Ret { tag: SOME, key: None, a: Some(was), b: None }
                }
                None => Ret::none(),
            },
            Op::Modify(k, w) => {
                let was = self.modify(&k, |r| {
                    let was = r.clone();
                    if let Some(w) = w {
                        *r = w;
                    }
                    was
                });
                Ret::old(was)
            }
            Op::ModMax(p, w) => {
                let mut w = w;
                let res = K::modify_max(self, &p, &mut |k, r| {
                    let was = (k.clone(), r.clone());
                    if let Some(w) = w.take() {
                        *r = w;
                    }
                    was
                });
                match res {
                    Some((k, v)) => Ret { tag: SOME, key: Some(k), a: Some(v), b: None },
                    None => Ret::none(),
                }
            }
            Op::Clear => {
                *self = RbTree::default();
                Ret::none()
            }
            Op::AppendDeep(k, x) => {
                let r = self.entry(k).or_insert(V::dflt());
                r.push(x);
                Ret::tag(r.count() as u8)
            }
            Op::Bulk(xs) => {
                let mut t = RbTree::new();
                for (k, v) in xs {
                    t.insert(k, v);
                }
                *self = t;
                Ret::none()
            }
            _ => unreachable!(),
        }
    }
}

/// The sorted dictionary.
pub fn model<K: Key, V: Val>(m: &mut BTreeMap<K, V>, op: &Op<K, V>) -> Ret<K, V> {
    fn put<V: Clone>(r: &mut V, w: &Option<V>) -> Option<V> {
        let was = r.clone();
        if let Some(w) = w {
            *r = w.clone();
        }
        Some(was)
    }
    match op {
        Op::Insert(k, v) => Ret::old(m.insert(k.clone(), v.clone())),
        Op::InsertMut(k, v, w) => Ret::old(m.insert(k.clone(), w.as_ref().unwrap_or(v).clone())),
        Op::Remove(k) => Ret::old(m.remove(k)),
        Op::RemoveEntry(k) => match m.remove_entry(k) {
            Some((k, v)) => Ret { tag: SOME, key: Some(k), a: Some(v), b: None },
            None => Ret::none(),
        },
        Op::GetMut(k, w) | Op::Modify(k, w) => match m.get_mut(k) {
            Some(r) => Ret { tag: SOME, key: None, a: put(r, w), b: None },
            None => Ret::none(),
        },
        Op::ModMax(p, w) => {
            let k = m.keys().rev().find(|k| k.has_prefix(p)).cloned();
            match k {
                None => Ret::none(),
                Some(k) => {
                    let a = put(m.get_mut(&k).unwrap(), w);
                    Ret { tag: SOME, key: Some(k), a, b: None }
                }
            }
        }
        Op::OrInsert(k, v, w) => Ret { tag: SOME, key: None, a: put(m.entry(k.clone()).or_insert(v.clone()), w), b: None },
        Op::OrInsertWith(k, v, w) => {
            let tag = if m.contains_key(k) { NONE } else { SOME };
            Ret { tag, key: None, a: put(m.entry(k.clone()).or_insert(v.clone()), w), b: None }
        }
        Op::OrInsertWithKey(k, v, w) => {
            let key = if m.contains_key(k) { None } else { Some(k.clone()) };
            Ret { tag: SOME, key, a: put(m.entry(k.clone()).or_insert(v.clone()), w), b: None }
        }
        Op::OrDefault(k, w) => Ret { tag: SOME, key: None, a: put(m.entry(k.clone()).or_insert(V::dflt()), w), b: None },
        Op::AndModifyOrInsert(k, mo, v) => {
            let a = m.get(k).cloned();
            let new = if a.is_some() { mo } else { v };
            m.insert(k.clone(), new.clone());
            Ret { tag: SOME, key: None, a, b: Some(new.clone()) }
        }
        Op::AndModify(k, mo) => match m.get_mut(k) {
            Some(r) => Ret { tag: OCCUPIED, key: Some(k.clone()), a: put(r, &Some(mo.clone())), b: Some(mo.clone()) },
            None => Ret { tag: VACANT, key: Some(k.clone()), a: None, b: None },
        },
        Op::OccGetMut(k, w1, w2) => match m.get_mut(k) {
            Some(r) => {
                let a = put(r, &Some(w2.as_ref().unwrap_or(w1).clone()));
                Ret { tag: OCCUPIED, key: Some(k.clone()), a, b: Some(w1.clone()) }
            }
            None => Ret::tag(VACANT),
        },
        Op::OccIntoMut(k, w) => match m.get_mut(k) {
            Some(r) => Ret { tag: OCCUPIED, key: None, a: put(r, w), b: None },
            None => Ret::tag(VACANT),
        },
        Op::OccRemove(k) => match m.remove(k) {
            Some(v) => Ret { tag: OCCUPIED, key: None, a: Some(v), b: None },
            None => Ret::tag(VACANT),
        },
        Op::OccRemoveEntry(k) => match m.remove_entry(k) {
            Some((k, v)) => Ret { tag: OCCUPIED, key: Some(k), a: Some(v), b: None },
            None => Ret::tag(VACANT),
        },
        Op::VacInsert(k, v, w) => {
            if m.contains_key(k) {
                Ret::tag(OCCUPIED)
            } else {
                m.insert(k.clone(), w.as_ref().unwrap_or(v).clone());
                Ret { tag: VACANT, key: Some(k.clone()), a: Some(v.clone()), b: None }
            }
        }
        Op::VacIntoKey(k) => {
            if m.contains_key(k) {
                Ret::tag(OCCUPIED)
            } else {
                Ret { tag: VACANT, key: Some(k.clone()), a: None, b: None }
            }
        }
        Op::EntryDrop(k) => match m.get(k) {
            Some(v) => Ret { tag: OCCUPIED, key: Some(k.clone()), a: Some(v.clone()), b: None },
            None => Ret { tag: VACANT, key: Some(k.clone()), a: None, b: None },
        },
        Op::Clear => {
            m.clear();
            Ret::none()
        }
        Op::AppendDeep(k, x) => {
            let r = m.entry(k.clone()).or_insert(V::dflt());
            r.push(*x);
            Ret::tag(r.count() as u8)
        }
        Op::Bulk(xs) => {
            m.clear();
            for (k, v) in xs {
                m.insert(k.clone(), v.clone());
            }
            Ret::none()
        }
    }
}

impl<K, V> Op<K, V> {
    pub fn key(&self) -> Option<&K> {
        match self {
            Op::Insert(k, _)
            | Op::InsertMut(k, _, _)
            | Op::Remove(k)
            | Op::RemoveEntry(k)
            | Op::GetMut(k, _)
            | Op::Modify(k, _)
            | Op::OrInsert(k, _, _)
            | Op::OrInsertWith(k, _, _)
            | Op::OrInsertWithKey(k, _, _)
            | Op::OrDefault(k, _)
            | Op::AndModifyOrInsert(k, _, _)
            | Op::AndModify(k, _)
            | Op::OccGetMut(k, _, _)
            | Op::OccIntoMut(k, _)
            | Op::OccRemove(k)
            | Op::OccRemoveEntry(k)
            | Op::VacInsert(k, _, _)
            | Op::VacIntoKey(k)
            | Op::EntryDrop(k)
            | Op::AppendDeep(k, _) => Some(k),
            Op::ModMax(..) | Op::Clear | Op::Bulk(_) => None,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Insert(..) => "insert",
            Op::InsertMut(..) => "insert+write",
            Op::Remove(_) => "remove",
            Op::RemoveEntry(_) => "remove_entry",
            Op::GetMut(..) => "get_mut",
            Op::Modify(..) => "modify",
            Op::ModMax(..) => "modify_max_with_prefix",
            Op::OrInsert(..) => "or_insert",
            Op::OrInsertWith(..) => "or_insert_with",
            Op::OrInsertWithKey(..) => "or_insert_with_key",
            Op::OrDefault(..) => "or_default",
            Op::AndModifyOrInsert(..) => "and_modify+or_insert",
            Op::AndModify(..) => "and_modify",
            Op::OccGetMut(..) => "occupied get_mut",
            Op::OccIntoMut(..) => "occupied into_mut",
            Op::OccRemove(_) => "occupied remove",
            Op::OccRemoveEntry(_) => "occupied remove_entry",
            Op::VacInsert(..) => "vacant insert",
            Op::VacIntoKey(_) => "vacant into_key",
            Op::EntryDrop(_) => "entry dropped",
            Op::Clear => "clear",
            Op::Bulk(_) => "bulk",
            Op::AppendDeep(..) => "append_deep",
        }
    }
}

/// What the histories of one case look like.
#[derive(Clone, Copy)]
pub struct Shape {
    pub pool: usize,
    pub ops: usize,
    /// Weight of operations other than insert and remove.
    pub exotic: usize,
}

pub fn shape(r: &mut Rng, big: usize) -> Shape {
    let pool = match r.below(20) {
        0..=8 => r.range(1, 12),
        9..=13 => r.range(8, 40),
        14..=16 => r.range(30, 120),
        17..=18 => r.range(100, big.max(101)),
        _ => r.range(1, 3),
    }
    .min(big);
    let ops = if big <= 10 {
        // Interpreted.
        r.range(3, 14)
    } else if pool <= 40 {
        r.range(4, 60)
    } else {
        pool + r.below(pool)
    };
    Shape { pool, ops, exotic: *r.pick(&[0usize, 1, 3, 6]) }
}

fn opt<V: Val>(r: &mut Rng) -> Option<V> {
    if r.chance(1, 2) {
        Some(V::gen(r))
    } else {
        None
    }
}

pub fn exotic<K: Key, V: Val>(r: &mut Rng, pool: &[K]) -> Op<K, V> {
    let k = r.pick(pool).clone();
    if V::SEQ && r.chance(1, 4) {
        return Op::AppendDeep(k, r.below(5) as u16);
    }
    match r.below(17) {
        0 => Op::InsertMut(k, V::gen(r), opt(r)),
        1 => Op::RemoveEntry(k),
        2 => Op::GetMut(k, opt(r)),
        3 => Op::Modify(k, opt(r)),
        4 => {
            if K::PREFIX {
                Op::ModMax(K::gen_prefix(r, &k), opt(r))
            } else {
                Op::GetMut(k, opt(r))
            }
        }
        5 => Op::OrInsert(k, V::gen(r), opt(r)),
        6 => Op::OrInsertWith(k, V::gen(r), opt(r)),
        7 => Op::OrInsertWithKey(k, V::gen(r), opt(r)),
        8 => Op::OrDefault(k, opt(r)),
        9 => Op::AndModifyOrInsert(k, V::gen(r), V::gen(r)),
        10 => Op::AndModify(k, V::gen(r)),
        11 => Op::OccGetMut(k, V::gen(r), opt(r)),
        12 => Op::OccIntoMut(k, opt(r)),
        13 => Op::OccRemove(k),
        14 => Op::OccRemoveEntry(k),
        15 => Op::VacInsert(k, V::gen(r), opt(r)),
        _ => match r.below(6) {
            0 => Op::VacIntoKey(k),
            1 => Op::Clear,
            2 => {
                let n = r.below(12);
                Op::Bulk((0..n).map(|_| (r.pick(pool).clone(), V::gen(r))).collect())
            }
            _ => Op::EntryDrop(k),
        },
    }
}

/// A history in phases: ascending, descending and random fills and drains,
/// churn around a size, rewriting in place, mixtures.
pub fn history<K: Key, V: Val>(r: &mut Rng, sh: Shape) -> (Vec<K>, Vec<Op<K, V>>) {
    let keys: Vec<K> = pool(r, sh.pool);
    let mut ops: Vec<Op<K, V>> = vec![];
    while ops.len() < sh.ops {
        let left = sh.ops - ops.len();
        let n = r.range(1, left.min(keys.len() * 2).max(1));
        let phase = r.below(9);
        let at = r.below(keys.len());
        for i in 0..n {
            let op = if sh.exotic > 0 && r.chance(sh.exotic, 10) {
                // Clearing a large map too often would keep it small.
                match exotic::<K, V>(r, &keys) {
                    Op::Clear | Op::Bulk(_) if keys.len() > 40 && !r.chance(1, 20) => Op::Insert(r.pick(&keys).clone(), V::gen(r)),
                    o => o,
                }
            } else {
                let len = keys.len();
                match phase {
                    0 => Op::Insert(keys[(at + i) % len].clone(), V::gen(r)),
                    1 => Op::Insert(keys[(at + len * 2 - i % len) % len].clone(), V::gen(r)),
                    2 | 3 => Op::Insert(r.pick(&keys).clone(), V::gen(r)),
                    4 => Op::Remove(keys[(at + i) % len].clone()),
                    5 => Op::Remove(keys[(at + len * 2 - i % len) % len].clone()),
                    6 => Op::Remove(r.pick(&keys).clone()),
                    7 => {
                        if i % 2 == 0 {
                            Op::Insert(r.pick(&keys).clone(), V::gen(r))
                        } else {
                            Op::Remove(r.pick(&keys).clone())
                        }
                    }
                    // From both ends.
                    _ => {
                        let j = if i % 2 == 0 { i / 2 } else { len * 2 - 1 - i / 2 };
                        Op::Insert(keys[j % len].clone(), V::gen(r))
                    }
                }
            };
            ops.push(op);
        }
    }
    (keys, ops)
}

/// Steps at which the expensive monitors run: always while the map is small,
/// else a number of evenly spread steps and the last.
pub fn due(step: usize, total: usize, size: usize, points: usize) -> bool {
    if size <= 24 && total <= 200 {
        return true;
    }
    let every = (total / points).max(1);
    step % every == 0 || step + 1 == total
}

/// Execute a history against subject and model; the monitor sees every step.
pub fn drive<K: Key, V: Val, S: Subject<K, V>>(
    ops: &[Op<K, V>],
    mut mon: impl FnMut(usize, &Op<K, V>, &S, &BTreeMap<K, V>, &Ret<K, V>, &Ret<K, V>) -> R,
) -> R {
    let mut s = S::new();
    let mut m = BTreeMap::new();
    for (i, op) in ops.iter().enumerate() {
        if late() {
            break;
        }
        let got = s.apply(op.clone());
        let want = model(&mut m, op);
        mon(i, op, &s, &m, &got, &want)?;
    }
    Ok(())
}

/// Run one history under a monitor; on failure shrink it and describe it.
pub fn run_shrunk<X: Clone + std::fmt::Debug>(ops: Vec<X>, what: &str, mut run: impl FnMut(&[X]) -> R) -> R {
    if late() {
        return Ok(());
    }
    let first = match guarded(|| run(&ops)) {
        Ok(()) => return Ok(()),
        Err(f) => f,
    };
    let (min, msg) = shrink(ops, if cfg!(miri) { 30 } else { 1500 }, |xs| guarded(|| run(xs)).err().map(|f| f.0));
    let d = crate::util::clip(format!("{:?}", Compact(&min)), 6000);
    Err(Fail(format!("{} [{}; history of {} steps:{}]", msg.unwrap_or(first.0), what, min.len(), d)))
}

struct Compact<'a, X>(&'a [X]);
impl<X: std::fmt::Debug> std::fmt::Debug for Compact<'_, X> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for x in self.0 {
            write!(f, " {:?};", x)?;
        }
        Ok(())
    }
}

pub fn note_op<K, V>(ctx: &mut Ctx, op: &Op<K, V>) {
    ctx.count(op.kind(), 1);
}
