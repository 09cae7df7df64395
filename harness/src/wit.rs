//! Witness oracles. They see a witness (as decoded from its CBOR), the request
//! and the true contents, and judge hash, completeness and disclosure apart.

use crate::kinds::{Key, Val};
use crate::report::R;
use crate::tree::{find_label, Item, Lookup, T};
use crate::util::Rng;
use crate::{ensure, fail};
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, HashTree, Map};
use std::collections::BTreeMap;

/// The true contents, in key order.
pub struct View {
    pub labels: Vec<Vec<u8>>,
    pub vals: Vec<T>,
    pub byte_ordered: bool,
}

impl View {
    pub fn of<K: Key, V: Val>(m: &BTreeMap<K, V>) -> View {
        View {
            labels: m.keys().map(|k| k.bytes()).collect(),
            vals: m.values().map(|v| v.t()).collect(),
            byte_ordered: K::BYTE_ORDERED,
        }
    }
    pub fn len(&self) -> usize {
        self.labels.len()
    }
    fn index(&self, label: &[u8]) -> Option<usize> {
        if self.byte_ordered {
            self.labels.binary_search_by(|x| x[..].cmp(label)).ok()
        } else {
            self.labels.iter().position(|x| x == label)
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shows {
    Value,
    /// The caller asked for the value in pruned form.
    Hash,
}

/// What was asked, in terms of positions in the view.
#[derive(Clone, Debug)]
pub enum Req {
    Present { at: usize, shows: Shows },
    /// Absent key that would sit before position `at`.
    Absent { at: usize, label: Vec<u8> },
    /// Keys lo..hi, with whether the bounds are themselves keys.
    Range { lo: usize, hi: usize, lo_exact: bool, hi_exact: bool, shows: Shows },
    Prefix { lo: usize, hi: usize, exact: bool },
    Keys,
}

impl Req {
    pub fn kind(&self) -> &'static str {
        match self {
            Req::Present { shows: Shows::Value, .. } => "key witness (present)",
            Req::Present { .. } => "nested witness (pruned value)",
            Req::Absent { .. } => "key witness (absent)",
            Req::Range { shows: Shows::Hash, .. } => "key range",
            Req::Range { .. } => "value range",
            Req::Prefix { .. } => "prefix",
            Req::Keys => "all keys",
        }
    }
}

/// Positions of the shown keys; None for something hidden.
fn shown<'a>(v: &View, t: &'a T) -> R<Vec<(Option<usize>, Option<&'a T>)>> {
    let mut out = vec![];
    let mut last: Option<usize> = None;
    for i in t.items() {
        match i {
            Item::Key(l, sub) => {
                let Some(p) = v.index(l) else { fail!("the witness shows the key {} which is not in the collection", crate::util::hex(l)) };
                ensure!(last.map_or(true, |x| x < p), "the witness shows keys out of order or twice");
                last = Some(p);
                out.push((Some(p), Some(sub)));
            }
            Item::Gap => out.push((None, None)),
            Item::Leaf(_) => fail!("the witness shows a bare leaf instead of keys"),
        }
    }
    Ok(out)
}

/// Can a verifier conclude everything the request asks for?
pub fn complete(v: &View, q: &Req, t: &T) -> R {
    let items = shown(v, t)?;
    let at: std::collections::HashMap<usize, usize> = items.iter().enumerate().filter_map(|(i, x)| x.0.map(|p| (p, i))).collect();
    let pos = |p: usize| at.get(&p).copied();
    // Nothing hidden and nothing else between the two shown positions a and b.
    let adjacent = |a: Option<usize>, b: Option<usize>, what: &str| -> R {
        let i = match a {
            None => 0,
            Some(a) => match pos(a) {
                Some(i) => i + 1,
                None => fail!("{}: the left neighbour is not shown", what),
            },
        };
        let j = match b {
            None => items.len(),
            Some(b) => match pos(b) {
                Some(j) => j,
                None => fail!("{}: the right neighbour is not shown", what),
            },
        };
        ensure!(i == j, "{}: something is hidden between the boundary keys", what);
        Ok(())
    };
    let n = v.len();
    let before = |at: usize| if at == 0 { None } else { Some(at - 1) };
    let after = |at: usize| if at == n { None } else { Some(at) };
    let value = |p: usize| -> R {
        let i = pos(p).unwrap();
        ensure!(items[i].1 == Some(&v.vals[p]), "the witness shows {:?} as the value of {}, not {:?}", items[i].1, crate::util::hex(&v.labels[p]), v.vals[p]);
        Ok(())
    };
    match q {
        Req::Present { at, shows } => {
            ensure!(pos(*at).is_some(), "the witness does not show the key {} that is in the collection", crate::util::hex(&v.labels[*at]));
            match shows {
                Shows::Value => {
                    value(*at)?;
                    if v.byte_ordered {
                        ensure!(find_label(&v.labels[*at], t) == Lookup::Found(&v.vals[*at]), "the specification's lookup does not find the value");
                    }
                }
                Shows::Hash => {
                    let i = pos(*at).unwrap();
                    ensure!(items[i].1.unwrap().hash() == v.vals[*at].hash(), "the nested witness has another value hash");
                }
            }
        }
        Req::Absent { at, label } => {
            adjacent(before(*at), after(*at), "absence")?;
            if v.byte_ordered {
                ensure!(find_label(label, t) == Lookup::Absent, "the specification's lookup does not prove {} absent", crate::util::hex(label));
            }
        }
        Req::Range { lo, hi, lo_exact, hi_exact, shows } => {
            for p in *lo..*hi {
                ensure!(pos(p).is_some(), "the range witness leaves out the key {}", crate::util::hex(&v.labels[p]));
            }
            if lo == hi {
                adjacent(before(*lo), after(*hi), "empty range")?;
            } else {
                if !lo_exact {
                    adjacent(before(*lo), Some(*lo), "start of range")?;
                }
                for p in *lo..*hi - 1 {
                    adjacent(Some(p), Some(p + 1), "inside the range")?;
                }
                if !hi_exact {
                    adjacent(Some(*hi - 1), after(*hi), "end of range")?;
                }
            }
            if *shows == Shows::Value {
                for p in *lo..*hi {
                    value(p)?;
                }
            }
        }
        Req::Prefix { lo, hi, exact } => {
            for p in *lo..*hi {
                ensure!(pos(p).is_some(), "the prefix witness leaves out the key {}", crate::util::hex(&v.labels[p]));
            }
            if lo == hi {
                adjacent(before(*lo), after(*hi), "no key with the prefix")?;
            } else {
                if !exact {
                    adjacent(before(*lo), Some(*lo), "start of the prefix")?;
                }
                for p in *lo..*hi - 1 {
                    adjacent(Some(p), Some(p + 1), "inside the prefix")?;
                }
                adjacent(Some(*hi - 1), after(*hi), "end of the prefix")?;
            }
        }
        Req::Keys => {
            ensure!(items.len() == n && items.iter().enumerate().all(|(i, x)| x.0 == Some(i)), "the all-keys witness does not show exactly all keys");
        }
    }
    Ok(())
}

/// Does the witness show only what the request needs?
pub fn minimal(v: &View, q: &Req, t: &T) -> R {
    let items = shown(v, t)?;
    // lo..hi is what was asked for, of which from..to may be shown.
    let (from, to, lo, hi, values) = match q {
        Req::Present { at, shows } => (*at, *at + 1, *at, *at + 1, *shows == Shows::Value),
        Req::Absent { at, .. } => (at.saturating_sub(1), *at + 1, *at, *at, false),
        Req::Range { lo, hi, lo_exact, hi_exact, shows } => (
            if *lo_exact { *lo } else { lo.saturating_sub(1) },
            if *hi_exact { *hi } else { *hi + 1 },
            *lo,
            *hi,
            *shows == Shows::Value,
        ),
        Req::Prefix { lo, hi, .. } => (lo.saturating_sub(1), *hi + 1, *lo, *hi, false),
        Req::Keys => (0, v.len(), 0, v.len(), false),
    };
    for (p, sub) in &items {
        let Some(p) = p else { continue };
        ensure!((from..to).contains(p), "the witness for {:?} shows the key {} (position {})", q, crate::util::hex(&v.labels[*p]), p);
        let requested = (lo..hi).contains(p);
        if !(requested && values) {
            ensure!(matches!(sub, Some(T::Pruned(_))), "the witness for {:?} shows the value of {} : {:?}", q, crate::util::hex(&v.labels[*p]), sub);
        }
    }
    Ok(())
}

/// A query the caller makes.
#[derive(Clone, Debug)]
pub enum Ask<K> {
    Key(K),
    KeyBorrowed(K),
    Nested(K),
    Keys,
    KeyRange(K, K),
    KeyRangeBorrowed(K, K),
    ValueRange(K, K),
    ValueRangeBorrowed(K, K),
    Prefix(Vec<u8>),
}

fn prune<'a, V: AsHashTree>(v: &'a V) -> HashTree<'a> {
    HashTree::Pruned(v.root_hash())
}

pub fn ask_tree<'a, K: Key, V: AsHashTree + 'static>(t: &'a RbTree<K, V>, a: &Ask<K>) -> HashTree<'a> {
    match a {
        Ask::Key(k) => t.witness(k),
        Ask::KeyBorrowed(k) => K::witness_b(t, k),
        Ask::Nested(k) => t.nested_witness(k, prune),
        Ask::Keys => t.keys(),
        Ask::KeyRange(a, b) => t.key_range(a, b),
        Ask::KeyRangeBorrowed(a, b) => K::key_range_b(t, a, b),
        Ask::ValueRange(a, b) => t.value_range(a, b),
        Ask::ValueRangeBorrowed(a, b) => K::value_range_b(t, a, b),
        Ask::Prefix(p) => K::prefix_witness(t, p),
    }
}

pub fn ask_map<'a, K: Key, V: AsHashTree + 'static>(m: &'a Map<K, V>, a: &Ask<K>) -> HashTree<'a> {
    match a {
        Ask::Key(k) => m.witness(k),
        Ask::Keys => m.witness_keys(),
        Ask::KeyRange(a, b) => m.witness_key_range::<K, K>(a, b),
        Ask::ValueRange(a, b) => m.witness_value_range::<K, K>(a, b),
        Ask::Prefix(p) => K::map_prefix_witness(m, p),
        other => ask_tree(m.as_tree(), other),
    }
}

pub fn req<K: Key, V>(m: &BTreeMap<K, V>, keys: &[&K], a: &Ask<K>) -> Req {
    let below = |k: &K| keys.partition_point(|x| *x < k);
    let upto = |k: &K| keys.partition_point(|x| *x <= k);
    let range = |a: &K, b: &K, shows| Req::Range {
        lo: below(a),
        hi: upto(b),
        lo_exact: m.contains_key(a),
        hi_exact: m.contains_key(b),
        shows,
    };
    match a {
        Ask::Key(k) | Ask::KeyBorrowed(k) | Ask::Nested(k) => {
            if m.contains_key(k) {
                Req::Present { at: below(k), shows: if matches!(a, Ask::Nested(_)) { Shows::Hash } else { Shows::Value } }
            } else {
                Req::Absent { at: below(k), label: k.bytes() }
            }
        }
        Ask::Keys => Req::Keys,
        Ask::KeyRange(a, b) | Ask::KeyRangeBorrowed(a, b) => range(a, b, Shows::Hash),
        Ask::ValueRange(a, b) | Ask::ValueRangeBorrowed(a, b) => range(a, b, Shows::Value),
        Ask::Prefix(p) => {
            let lo = keys.partition_point(|x| x.before_prefix(p));
            let hi = lo + keys[lo..].iter().take_while(|x| x.has_prefix(p)).count();
            Req::Prefix { lo, hi, exact: lo < hi && keys[lo].is_prefix_exact(p) }
        }
    }
}

/// A key near the history's keys: from the pool, or fresh.
fn some_key<K: Key>(r: &mut Rng, pool: &[K]) -> K {
    if r.chance(1, 6) {
        let st = r.below(60) as u32;
        let i = r.below(1000);
        K::gen(r, st, i)
    } else {
        r.pick(pool).clone()
    }
}

pub fn gen_ask<K: Key>(r: &mut Rng, pool: &[K], kind: usize) -> Ask<K> {
    let pair = |r: &mut Rng| {
        let (a, b) = if r.chance(1, 3) {
            // Close together.
            let i = r.below(pool.len());
            let j = (i + r.below(4)).min(pool.len() - 1);
            (pool[i].clone(), pool[j].clone())
        } else {
            (some_key(r, pool), some_key(r, pool))
        };
        if a <= b {
            (a, b)
        } else {
            (b, a)
        }
    };
    match kind % 9 {
        0 => Ask::Key(some_key(r, pool)),
        1 => Ask::KeyBorrowed(some_key(r, pool)),
        2 => Ask::Nested(some_key(r, pool)),
        3 => Ask::Keys,
        4 => {
            let (a, b) = pair(r);
            Ask::KeyRange(a, b)
        }
        5 => {
            let (a, b) = pair(r);
            Ask::KeyRangeBorrowed(a, b)
        }
        6 => {
            let (a, b) = pair(r);
            Ask::ValueRange(a, b)
        }
        7 => {
            let (a, b) = pair(r);
            Ask::ValueRangeBorrowed(a, b)
        }
        _ => {
            if K::PREFIX {
                let k = some_key(r, pool);
                Ask::Prefix(K::gen_prefix(r, &k))
            } else {
                Ask::Key(some_key(r, pool))
            }
        }
    }
}
