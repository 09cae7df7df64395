//! C17: failures in what the caller passes in. Every closure, iterator,
//! decoder and writer a collection accepts is made to fail at each point it
//! can; afterwards the collection must hold what it held before plus what the
//! callback had completed, own exactly that, and keep working.

use crate::hist::{self, run_shrunk, Op, Subject};
use crate::own::{balanced, no_errors, none_alive, plain_history, plain_model, queries, tracked_op, Leaf};
use crate::report::{caught, Caught, Ctx, Fail, Injected, R};
use crate::track::{self, quiet, TK, TV};
use crate::tree;
use crate::util::{Rng, Sig};
use crate::wit::View;
use crate::{ensure, fail};
use certified_vars::collections::group::builder::GroupBuilder;
use certified_vars::rbtree::entry::Entry;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, HashTree, Map, Paged, Seq};
use serde::de::{DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use std::cell::Cell;
use std::collections::BTreeMap;

/// Fail, as a callback does, without the noise of the panic hook.
fn boom(n: u32) -> ! {
    std::panic::resume_unwind(Box::new(Injected(n)))
}

const OTHER_KEY: u32 = 99;

/// Run a call whose callback fails. `Ok(None)` means that it failed as told.
fn attempt<T>(f: impl FnOnce() -> T) -> Result<Option<T>, Fail> {
    match caught(f) {
        Ok(t) => Ok(Some(t)),
        Err(Caught::Injected(OTHER_KEY)) => Err(Fail("the callback was given another key".into())),
        Err(Caught::Injected(_)) => Ok(None),
        Err(Caught::Subject(s)) => Err(Fail(format!("a failing callback makes the call panic otherwise: {}", s))),
        Err(Caught::Harness(s)) => {
            eprintln!("HARNESS-ERROR {}", s);
            std::process::exit(2)
        }
    }
}

/// What the callback does to the value before it fails.
type Writes = Vec<(u32, bool)>;

fn write(v: &mut TV, ws: &Writes) {
    for (x, in_place) in ws {
        if *in_place {
            v.set(*x);
        } else {
            *v = TV::new(*x);
        }
    }
}

#[derive(Clone, Debug)]
enum F {
    Modify(u16, Writes),
    ModMax(u16, Writes),
    /// and_modify fails.
    AndModify(u16, Writes),
    /// and_modify succeeds where it applies, then or_insert_with fails.
    AndModifyThen(u16, Writes),
    OrWith(u16),
    OrWithKey(u16),
    GetWith(u16, usize),
    Nested(u16),
    ForEach(usize),
    /// The caller fails while it holds what insert returned.
    HoldInsert(u16, u32, Writes),
    HoldOrInsert(u16, u32, Writes),
    HoldEntry(u16, Writes),
    HoldIter(usize),
    HoldWitness(u16),
    Encode(usize, bool),
    Print(usize, bool),
}

struct Short(usize, bool);
impl Short {
    fn take(&mut self, n: usize) -> Result<(), ()> {
        if n > self.0 {
            if self.1 {
                boom(1)
            }
            return Err(());
        }
        self.0 -= n;
        Ok(())
    }
}
impl std::io::Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.take(b.len()).map(|_| b.len()).map_err(|_| std::io::Error::from(std::io::ErrorKind::Other))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::fmt::Write for Short {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.take(s.len()).map_err(|_| std::fmt::Error)
    }
}

trait Faulty: Subject<TK, TV> {
    /// Calls that only one of the two types has.
    fn modify(&mut self, k: u16, ws: &Writes);
    fn insert(&mut self, k: u16, v: u32, ws: &Writes);
    fn mod_max(&mut self, k: u16, ws: &Writes);
    fn print(&self, w: &mut Short) -> bool;
    fn encode(&self, w: Short) -> bool;
}

impl Faulty for RbTree<TK, TV> {
    fn modify(&mut self, k: u16, ws: &Writes) {
        self.modify(&k, |v| {
            write(v, ws);
            boom(2)
        });
    }
    fn insert(&mut self, k: u16, v: u32, ws: &Writes) {
        let (old, r) = self.insert(TK::new(k), TV::new(v));
        write(r, ws);
        let _held = old;
        boom(3)
    }
    fn mod_max(&mut self, k: u16, ws: &Writes) {
        self.modify_max_with_prefix(&k, |key, v| {
            if key.get() != k {
                boom(OTHER_KEY)
            }
            write(v, ws);
            boom(4)
        });
    }
    fn print(&self, _: &mut Short) -> bool {
        true
    }
    fn encode(&self, _: Short) -> bool {
        true
    }
}

impl Faulty for Map<TK, TV> {
    fn modify(&mut self, k: u16, ws: &Writes) {
        if let Some(v) = self.get_mut(&k) {
            write(v, ws);
            boom(2)
        }
    }
    fn insert(&mut self, k: u16, v: u32, ws: &Writes) {
        let old = Map::insert(self, TK::new(k), TV::new(v));
        let r = self.get_mut(&TK::new(k)).expect("just inserted");
        write(r, ws);
        let _held = old;
        boom(3)
    }
    fn mod_max(&mut self, k: u16, ws: &Writes) {
        <Self as Faulty>::modify(self, k, ws)
    }
    fn print(&self, w: &mut Short) -> bool {
        std::fmt::Write::write_fmt(w, format_args!("{:?}", self)).is_ok()
    }
    fn encode(&self, w: Short) -> bool {
        serde_cbor::to_writer(w, self).is_ok()
    }
}

/// Returns whether the call came to its end.
fn fail_in<S: Faulty>(s: &mut S, f: &F) -> Result<bool, Fail> {
    let done = match f {
        F::Modify(k, ws) => attempt(|| s.modify(*k, ws))?,
        F::ModMax(k, ws) => attempt(|| s.mod_max(*k, ws))?,
        F::AndModify(k, ws) => attempt(|| {
            s.entry(TK::new(*k)).and_modify(|v| {
                write(v, ws);
                boom(5)
            });
        })?,
        F::AndModifyThen(k, ws) => attempt(|| {
            s.entry(TK::new(*k)).and_modify(|v| write(v, ws)).or_insert_with(|| boom(6));
        })?,
        F::OrWith(k) => attempt(|| {
            s.entry(TK::new(*k)).or_insert_with(|| {
                let _made = TV::new(7);
                boom(7)
            });
        })?,
        F::OrWithKey(k) => attempt(|| {
            s.entry(TK::new(*k)).or_insert_with_key(|x| {
                let _made = TV::new(x.get() as u32);
                boom(8)
            });
        })?,
        F::GetWith(k, n) => {
            let left = Cell::new(*n);
            attempt(|| {
                s.tree().get_with(|x| {
                    if left.get() == 0 {
                        boom(9)
                    }
                    left.set(left.get() - 1);
                    k.cmp(&x.get())
                });
            })?
        }
        F::Nested(k) => attempt(|| {
            s.tree().nested_witness(k, |v| {
                let _part = v.as_hash_tree();
                boom(10)
            });
        })?,
        F::ForEach(n) => {
            let mut seen = vec![];
            let mut left = *n;
            attempt(|| {
                s.tree().for_each(move |k, v| {
                    if left == 0 {
                        boom(11)
                    }
                    left -= 1;
                    seen.push((k.clone(), v.clone()));
                })
            })?
        }
        F::HoldInsert(k, v, ws) => attempt(|| s.insert(*k, *v, ws))?,
        F::HoldOrInsert(k, v, ws) => attempt(|| {
            let r = s.entry(TK::new(*k)).or_insert(TV::new(*v));
            write(r, ws);
            boom(12)
        })?,
        F::HoldEntry(k, ws) => attempt(|| match s.entry(TK::new(*k)) {
            Entry::Occupied(mut e) => {
                write(e.get_mut(), ws);
                boom(13)
            }
            Entry::Vacant(_e) => boom(14),
        })?,
        F::HoldIter(n) => attempt(|| {
            let mut it = certified_vars::rbtree::iterator::RbTreeIterator::new(s.tree());
            for _ in 0..*n {
                it.next();
            }
            boom(15)
        })?,
        F::HoldWitness(k) => attempt(|| {
            let _w = s.tree().witness(k);
            let _f = s.tree().as_hash_tree();
            boom(16)
        })?,
        F::Encode(n, hard) => attempt(|| {
            s.encode(Short(*n, *hard));
        })?,
        F::Print(n, hard) => attempt(|| {
            s.print(&mut Short(*n, *hard));
        })?,
    };
    Ok(done.is_some())
}

/// The dictionary: what the callback completed, and whether the call must fail
/// (`None`: either is fine).
fn expect(m: &mut BTreeMap<u16, u32>, f: &F) -> Option<bool> {
    let set = |m: &mut BTreeMap<u16, u32>, k: &u16, ws: &Writes| {
        let had = m.contains_key(k);
        if let (true, Some((x, _))) = (had, ws.last()) {
            m.insert(*k, *x);
        }
        Some(had)
    };
    match f {
        F::Modify(k, ws) | F::ModMax(k, ws) | F::AndModify(k, ws) => set(m, k, ws),
        F::AndModifyThen(k, ws) => set(m, k, ws).map(|had| !had),
        F::OrWith(k) | F::OrWithKey(k) => Some(!m.contains_key(k)),
        F::GetWith(..) => None,
        F::Nested(k) => Some(m.contains_key(k)),
        F::ForEach(n) => Some(*n < m.len()),
        F::HoldInsert(k, v, ws) => {
            m.insert(*k, *v);
            set(m, k, ws);
            Some(true)
        }
        F::HoldOrInsert(k, v, ws) => {
            m.entry(*k).or_insert(*v);
            set(m, k, ws);
            Some(true)
        }
        F::HoldEntry(k, ws) => {
            set(m, k, ws);
            Some(true)
        }
        F::HoldIter(_) | F::HoldWitness(_) => Some(true),
        F::Encode(..) | F::Print(..) => None,
    }
}

impl F {
    fn kind(&self) -> &'static str {
        match self {
            F::Modify(..) => "failures in modify and under get_mut",
            F::ModMax(..) => "failures in modify_max_with_prefix",
            F::AndModify(..) => "failures in and_modify",
            F::AndModifyThen(..) => "failures in or_insert_with after and_modify",
            F::OrWith(..) => "failures in or_insert_with",
            F::OrWithKey(..) => "failures in or_insert_with_key",
            F::GetWith(..) => "failures in get_with",
            F::Nested(..) => "failures in nested_witness",
            F::ForEach(..) => "failures in for_each",
            F::HoldInsert(..) => "failures holding an inserted value",
            F::HoldOrInsert(..) => "failures holding or_insert's value",
            F::HoldEntry(..) => "failures holding an entry",
            F::HoldIter(..) => "failures holding an iterator",
            F::HoldWitness(..) => "failures holding a witness",
            F::Encode(..) => "failures of a writer",
            F::Print(..) => "failures of a formatter",
        }
    }
}

fn gen_writes(r: &mut Rng) -> Writes {
    (0..r.below(3)).map(|_| (r.u64() as u32, r.chance(1, 2))).collect()
}

fn gen_fault(r: &mut Rng, keys: &[u16]) -> F {
    let k = if r.chance(1, 6) { r.u64() as u16 } else { *r.pick(keys) };
    let ws = gen_writes(r);
    let x = r.u64() as u32;
    match r.below(20) {
        0..=2 => F::Modify(k, ws),
        3 => F::ModMax(k, ws),
        4 | 5 => F::AndModify(k, ws),
        6 | 7 => F::AndModifyThen(k, ws),
        8 => F::OrWith(k),
        9 => F::OrWithKey(k),
        10 => F::GetWith(k, r.below(5)),
        11 => F::Nested(k),
        12 => F::ForEach(r.below(keys.len() + 1)),
        13 => F::HoldInsert(k, x, ws),
        14 => F::HoldOrInsert(k, x, ws),
        15 | 16 => F::HoldEntry(k, ws),
        17 => {
            if r.chance(1, 2) {
                F::HoldIter(r.below(4))
            } else {
                F::HoldWitness(k)
            }
        }
        18 => F::Encode(r.below(40), r.chance(1, 2)),
        _ => F::Print(r.below(200), r.chance(1, 2)),
    }
}

/// Every failure at every point, for the keys given.
fn all_faults(keys: &[u16], len: usize, x: u32) -> Vec<F> {
    let mut out = vec![];
    for k in keys {
        let k = *k;
        let styles: [Writes; 4] = [vec![], vec![(x, false)], vec![(x, true)], vec![(x ^ 1, false), (x, true)]];
        for ws in styles {
            out.push(F::Modify(k, ws.clone()));
            out.push(F::ModMax(k, ws.clone()));
            out.push(F::AndModify(k, ws.clone()));
            out.push(F::AndModifyThen(k, ws.clone()));
            out.push(F::HoldInsert(k, x, ws.clone()));
            out.push(F::HoldOrInsert(k, x, ws.clone()));
            out.push(F::HoldEntry(k, ws));
        }
        out.push(F::OrWith(k));
        out.push(F::OrWithKey(k));
        out.push(F::Nested(k));
        out.push(F::HoldWitness(k));
        for n in 0..4 {
            out.push(F::GetWith(k, n));
        }
    }
    for n in 0..=len {
        out.push(F::ForEach(n));
        out.push(F::HoldIter(n));
    }
    for n in [0, 1, 3, 4, 7, 9, 20] {
        for hard in [false, true] {
            out.push(F::Encode(n, hard));
            out.push(F::Print(n * 5, hard));
        }
    }
    out
}

#[derive(Clone, Debug)]
enum Step {
    Do(Op<u16, u32>),
    Fail(F),
    /// Look at the root hash, so that cached hashes are up to date.
    Look,
}

fn sound<S: Faulty>(ctx: &mut Ctx, s: &S, m: &BTreeMap<u16, u32>, q: &mut Rng, keys: &[u16]) -> R {
    let n = m.len() as isize;
    ensure!(s.tree().len() == m.len() && s.tree().is_empty() == m.is_empty(), "len() is {}, should be {}", s.tree().len(), m.len());
    let mut it = certified_vars::rbtree::iterator::RbTreeIterator::new(s.tree());
    for (k, v) in m {
        let Some((a, b)) = it.next() else { fail!("iteration ends before key {}", k) };
        ensure!((a.get(), b.get()) == (*k, *v), "iteration shows {} => {}, should be {} => {}", a.get(), b.get(), k, v);
    }
    ensure!(it.next().is_none(), "iteration goes on after the last key");
    let (root, full) = if q.chance(1, 2) {
        let f = s.tree().as_hash_tree();
        (s.root(), f)
    } else {
        (s.root(), s.tree().as_hash_tree())
    };
    quiet(|| crate::mapchk::committed(ctx, &root, &full, &View::of(m)))?;
    drop(full);
    queries(s.tree(), s.as_map(), m, q, keys)?;
    no_errors()?;
    ensure!(track::live() == (n, n), "(keys, values) {:?} are alive, the collection holds {}", track::live(), n);
    Ok(())
}

fn play<S: Faulty>(ctx: &mut Ctx, steps: &[Step], qseed: u64, keys: &[u16], eager: bool) -> R {
    balanced("a history with failing callbacks", || {
        track::reset();
        let mut q = Rng::new(qseed);
        let mut s = S::new();
        let mut m: BTreeMap<u16, u32> = BTreeMap::new();
        let mut failed = false;
        for (i, step) in steps.iter().enumerate() {
            match step {
                Step::Look => {
                    s.root();
                }
                Step::Do(op) => {
                    let got = s.apply(tracked_op(op));
                    let want = plain_model(&mut m, op);
                    let same = got.tag == want.tag
                        && got.key.as_ref().map(|x| x.get()) == want.key
                        && got.a.as_ref().map(|x| x.get()) == want.a
                        && got.b.as_ref().map(|x| x.get()) == want.b;
                    ensure!(same, "step {} {:?} returned {:?}, should return {:?}", i, op, got, want);
                }
                Step::Fail(f) => {
                    let before = m.len();
                    let must = expect(&mut m, f);
                    let done = fail_in(&mut s, f)?;
                    if let Some(must) = must {
                        ensure!(done != must, "step {} {:?} over {} entries: the callback {} called", i, f, before, if must { "was not" } else { "was" });
                    }
                    failed |= !done;
                    quiet(|| {
                        if done {
                            ctx.count("calls whose callback had no occasion to fail", 1);
                        } else {
                            ctx.count("failures injected", 1);
                            ctx.count(f.kind(), 1);
                            let mut sg = Sig::new();
                            sg.add(format!("{:?}", f).as_bytes());
                            for k in m.keys() {
                                sg.num(*k as u64);
                            }
                            ctx.seen(sg.0);
                        }
                    });
                    if !done {
                        ensure!(s.tree().len() == m.len(), "after step {} {:?}, len() is {}, should be {}", i, f, s.tree().len(), m.len());
                    }
                }
            }
            no_errors().map_err(|e| Fail(format!("at step {} {:?}: {}", i, step, e.0)))?;
            let n = m.len() as isize;
            ensure!(track::live() == (n, n), "after step {} {:?}, {:?} keys and values are alive, the collection holds {}", i, step, track::live(), n);
            let fault = matches!(step, Step::Fail(_));
            // The first look after a failure may be much later.
            if fault && eager || i + 1 == steps.len() || failed && q.chance(1, 8) {
                sound(ctx, &s, &m, &mut q, keys).map_err(|e| Fail(format!("after step {} {:?}: {}", i, step, e.0)))?;
            }
        }
        drop(s);
        none_alive("after the collection was dropped")
    })
}

fn maps<S: Faulty>(ctx: &mut Ctx, r: &mut Rng) -> R {
    let (keys, ops) = plain_history(ctx, r);
    let eager = r.chance(1, 2);
    let qseed = r.u64();
    let per = r.range(1, 4);
    let look = *r.pick(&[0usize, 2, 5]);
    let mut steps = vec![];
    for op in ops {
        steps.push(Step::Do(op));
        if look > 0 && r.chance(1, look) {
            steps.push(Step::Look);
        }
        if r.chance(1, per) {
            steps.push(Step::Fail(gen_fault(r, &keys)));
        }
    }
    ctx.sample(|| format!("{} of tracked keys and values: {} steps over {} keys, such as {:?}", S::NAME, steps.len(), keys.len(), &steps[..steps.len().min(5)]));
    run_shrunk(steps, &format!("{} with failing callbacks", S::NAME), |steps| play::<S>(ctx, steps, qseed, &keys, eager))
}

/// One history; every failure at one of its points, one at a time.
fn exhaustive<S: Faulty>(ctx: &mut Ctx, r: &mut Rng) -> R {
    let n = r.range(1, if ctx.small { 3 } else { 7 });
    let sh = hist::Shape { pool: n, ops: r.range(n, 14), exotic: 5 };
    let (mut keys, ops) = hist::history::<u16, u32>(r, sh);
    keys.sort();
    keys.dedup();
    let at = r.range(0, ops.len());
    let look = r.chance(1, 2);
    let mut pre: Vec<Step> = ops[..at].iter().cloned().map(Step::Do).collect();
    if look {
        pre.push(Step::Look);
    }
    let post: Vec<Step> = ops[at..].iter().take(6).cloned().map(Step::Do).collect();
    let mut faults = all_faults(&keys, keys.len(), r.u64() as u32);
    if ctx.small {
        r.shuffle(&mut faults);
        faults.truncate(20);
    }
    let eager = r.chance(1, 2);
    for f in faults {
        let mut steps = pre.clone();
        steps.push(Step::Fail(f));
        steps.extend(post.iter().cloned());
        let qseed = r.u64();
        run_shrunk(steps, &format!("{} with one failing callback", S::NAME), |steps| play::<S>(ctx, steps, qseed, &keys, eager))?;
    }
    ctx.count("histories with every failure at one point", 1);
    Ok(())
}

// ---------------------------------------------------------------- iterators

/// Yields items, then fails.
struct Broken {
    items: std::vec::IntoIter<u32>,
    left: usize,
    hint: u8,
}
impl Iterator for Broken {
    type Item = TV;
    fn next(&mut self) -> Option<TV> {
        if self.left == 0 {
            boom(20)
        }
        self.left -= 1;
        self.items.next().map(TV::new)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            _ => (n / 2, Some(2 * n)),
        }
    }
}

#[derive(Clone, Debug)]
enum SF {
    Append(u32),
    Extend(Vec<u32>),
    /// Fails when the item at this place is asked for.
    Broken(Vec<u32>, usize, u8),
    Collect(Vec<u32>, usize, u8),
    Clear,
}

fn seqs(ctx: &mut Ctx, r: &mut Rng) -> R {
    let n = r.range(1, if ctx.small { 5 } else { 12 });
    let steps: Vec<SF> = (0..n)
        .map(|_| {
            let xs: Vec<u32> = (0..r.below(7)).map(|_| r.u64() as u32).collect();
            let at = r.below(xs.len() + 1);
            match r.below(8) {
                0 => SF::Append(r.u64() as u32),
                1 => SF::Extend(xs),
                2 => SF::Clear,
                3 => SF::Collect(xs, at, r.below(3) as u8),
                _ => SF::Broken(xs, at, r.below(3) as u8),
            }
        })
        .collect();
    run_shrunk(steps, "Seq with failing iterators", |steps| {
        balanced("a sequence fed by failing iterators", || {
            track::reset();
            let mut s: Seq<TV> = Seq::new();
            let mut m: Vec<u32> = vec![];
            for (i, st) in steps.iter().enumerate() {
                match st {
                    SF::Append(x) => {
                        s.append(TV::new(*x));
                        m.push(*x);
                    }
                    SF::Extend(xs) => {
                        s.extend(xs.iter().map(|x| TV::new(*x)));
                        m.extend(xs);
                    }
                    SF::Clear => {
                        s.clear();
                        m.clear();
                    }
                    SF::Collect(xs, at, hint) => {
                        let got = attempt(|| Broken { items: xs.clone().into_iter(), left: *at, hint: *hint }.collect::<Seq<TV>>())?;
                        ensure!(got.is_none(), "collecting swallowed the failure of the iterator");
                        let b = Broken { items: xs.clone().into_iter(), left: *at, hint: *hint };
                        let got = attempt(|| Seq::from(b.collect::<Vec<TV>>()))?;
                        ensure!(got.is_none(), "collecting swallowed the failure of the iterator");
                    }
                    SF::Broken(xs, at, hint) => {
                        let b = Broken { items: xs.clone().into_iter(), left: *at, hint: *hint };
                        let got = attempt(|| s.extend(b))?;
                        ensure!(got.is_none(), "extend swallowed the failure of the iterator");
                        // Items that were handed over may be in.
                        let len = s.len();
                        ensure!(len >= m.len() && len <= m.len() + at, "after step {} {:?}, {} items remain of {} before", i, st, len, m.len());
                        let more = len - m.len();
                        m.extend(&xs[..more]);
                    }
                }
                no_errors()?;
                ensure!(s.len() == m.len() && s.iter().map(|x| x.get()).eq(m.iter().copied()), "after step {} {:?}, the items are not {:?}", i, st, m);
                let want = crate::seqc::chain(m.iter().map(|x| tree::h_leaf(&x.to_be_bytes())));
                ensure!(s.root_hash() == want, "after step {} {:?}, the root hash is not the chain hash of its {} items", i, st, m.len());
                ensure!(track::live() == (0, m.len() as isize), "after step {} {:?}, {:?} are alive, the sequence holds {}", i, st, track::live(), m.len());
                quiet(|| {
                    if matches!(st, SF::Broken(..) | SF::Collect(..)) {
                        ctx.count("failures injected", 1);
                        ctx.count("failures of an iterator given to a sequence", 1);
                    }
                    let mut sg = Sig::new();
                    sg.add(format!("{:?} {:?}", st, m.len()).as_bytes());
                    ctx.seen(sg.0)
                });
            }
            drop(s);
            none_alive("after the sequence was dropped")
        })
    })?;
    // The borrowed form, and an owned one with many items.
    let xs: Vec<u32> = (0..r.below(40)).map(|_| r.u64() as u32).collect();
    let at = r.below(xs.len() + 1);
    let pre = r.below(4) as u32;
    let mut s: Seq<u32> = (0..pre).collect();
    let got = attempt(|| {
        let mut n = 0;
        s.extend(xs.iter().inspect(|_| {
            if n == at {
                boom(21)
            }
            n += 1;
        }))
    })?;
    ensure!(got.is_none() == (at < xs.len()), "extend swallowed the failure of the iterator");
    let mut m: Vec<u32> = (0..pre).collect();
    ensure!(s.len() >= m.len() && s.len() <= m.len() + at, "{} items after a failed extend", s.len());
    let more = s.len() - m.len();
    m.extend(&xs[..more]);
    let want = crate::seqc::chain(m.iter().map(|x| tree::h_leaf(&x.to_be_bytes())));
    ensure!(s.as_vec() == &m && s.root_hash() == want, "after extend failed at item {} of {}, the sequence of {} items has the hash of other items", at, xs.len(), m.len());
    Ok(())
}

/// Map from an iterator that fails.
fn collect_map(ctx: &mut Ctx, r: &mut Rng) -> R {
    let xs: Vec<(u16, u32)> = (0..r.range(1, if ctx.small { 5 } else { 30 })).map(|_| (r.below(12) as u16, r.u64() as u32)).collect();
    balanced("collecting a map from a failing iterator", || {
        for at in 0..=xs.len() {
            track::reset();
            let mut n = 0;
            let got = attempt(|| {
                let it = xs.iter().map(|(k, v)| {
                    let k = TK::new(*k);
                    if n == at {
                        boom(22)
                    }
                    n += 1;
                    (k, TV::new(*v))
                });
                it.collect::<Map<TK, TV>>()
            })?;
            ensure!(got.is_none() == (at < xs.len()), "collecting {} entries, failing at {}: {}", xs.len(), at, if got.is_some() { "ends well" } else { "fails" });
            drop(got);
            none_alive("after a failed collect")?;
            quiet(|| {
                ctx.count("failures injected", 1);
                ctx.count("failures of an iterator given to a map", 1);
                let mut sg = Sig::new();
                sg.add(format!("{:?} {}", xs.iter().map(|x| x.0).collect::<Vec<_>>(), at).as_bytes());
                ctx.seen(sg.0)
            });
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- decoders

#[derive(Clone, Debug)]
enum Tok {
    N(u64),
    S(&'static str),
    L(Vec<Tok>),
    M(Vec<(Tok, Tok)>),
}

/// A decoder over `Tok` that fails at a given point.
#[derive(Clone, Copy)]
struct De<'a> {
    t: &'a Tok,
    left: &'a Cell<usize>,
    hard: bool,
    hint: bool,
}

type E = serde::de::value::Error;

impl<'a> De<'a> {
    fn tick(&self) -> Result<(), E> {
        if self.left.get() == 0 {
            if self.hard {
                boom(30)
            }
            return Err(serde::de::Error::custom("told to fail"));
        }
        self.left.set(self.left.get() - 1);
        Ok(())
    }
    fn on(&self, t: &'a Tok) -> De<'a> {
        De { t, ..*self }
    }
}

struct Many<'a, X> {
    de: De<'a>,
    it: std::slice::Iter<'a, X>,
    value: Option<&'a Tok>,
}

impl<'de, 'a> Deserializer<'de> for De<'a> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.tick()?;
        match self.t {
            Tok::N(n) => v.visit_u64(*n),
            Tok::S(s) => v.visit_str(s),
            Tok::L(xs) => v.visit_seq(Many { de: self, it: xs.iter(), value: None }),
            Tok::M(xs) => v.visit_map(Many { de: self, it: xs.iter(), value: None }),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

impl<'de, 'a> SeqAccess<'de> for Many<'a, Tok> {
    type Error = E;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, E> {
        match self.it.next() {
            Some(t) => s.deserialize(self.de.on(t)).map(Some),
            None => self.de.tick().map(|_| None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        if self.de.hint { Some(self.it.len()) } else { None }
    }
}

impl<'de, 'a> MapAccess<'de> for Many<'a, (Tok, Tok)> {
    type Error = E;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, E> {
        match self.it.next() {
            Some((k, v)) => {
                self.value = Some(v);
                s.deserialize(self.de.on(k)).map(Some)
            }
            None => self.de.tick().map(|_| None),
        }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, E> {
        let v = self.value.take().expect("a key came first");
        s.deserialize(self.de.on(v))
    }
    fn size_hint(&self) -> Option<usize> {
        if self.de.hint { Some(self.it.len()) } else { None }
    }
}

/// Decode at every point of failure.
fn decode_all<X: serde::de::DeserializeOwned>(ctx: &mut Ctx, what: &'static str, t: &Tok, hint: bool, few: bool, judge: impl Fn(&X) -> R) -> R {
    balanced(what, || {
        let left = Cell::new(usize::MAX);
        track::reset();
        let x = X::deserialize(De { t, left: &left, hard: false, hint }).map_err(|e| Fail(format!("{}: a valid decoder fails: {}", what, e)))?;
        judge(&x)?;
        drop(x);
        none_alive(what)?;
        let steps = usize::MAX - left.get();
        let by = if few { steps / 4 + 1 } else { 1 };
        for at in (0..steps).step_by(by) {
            for hard in [false, true] {
                let left = Cell::new(at);
                let got = attempt(|| X::deserialize(De { t, left: &left, hard, hint }))?;
                match got {
                    None => ensure!(hard, "{}: panicked", what),
                    Some(Ok(_)) => fail!("{}: the decoder failed at its step {} of {}, and decoding succeeded", what, at, steps),
                    Some(Err(_)) => ensure!(!hard, "{}: swallowed a panic", what),
                }
                none_alive(what)?;
                quiet(|| {
                    ctx.count("failures injected", 1);
                    ctx.count("failures of a decoder", 1);
                    let mut sg = Sig::new();
                    sg.add(what.as_bytes());
                    sg.add(format!("{:?} {} {}", t, at, hard).as_bytes());
                    ctx.seen(sg.0)
                });
            }
        }
        Ok(())
    })
}

fn decoders(ctx: &mut Ctx, r: &mut Rng) -> R {
    let few = ctx.small;
    let big = if few { 3 } else { 9 };
    let hint = r.chance(1, 2);
    let entries = |r: &mut Rng| -> Vec<(u16, u32)> { (0..r.below(big)).map(|_| (r.below(8) as u16, r.u64() as u32)).collect() };
    let n = |x: u64| Tok::N(x);
    match r.below(4) {
        0 => {
            let xs = entries(r);
            let t = Tok::M(xs.iter().map(|(k, v)| (n(*k as u64), n(*v as u64))).collect());
            let m: BTreeMap<u16, u32> = xs.into_iter().collect();
            decode_all::<Map<TK, TV>>(ctx, "decoding a map", &t, hint, few, |x| {
                ensure!(x.iter().map(|(k, v)| (k.get(), v.get())).eq(m.iter().map(|(k, v)| (*k, *v))), "a decoded map holds other entries");
                Ok(())
            })
        }
        1 => {
            let xs = entries(r);
            let t = Tok::L(xs.iter().map(|(_, v)| n(*v as u64)).collect());
            decode_all::<Seq<TV>>(ctx, "decoding a sequence", &t, hint, few, |x| {
                ensure!(x.iter().map(|v| v.get()).eq(xs.iter().map(|x| x.1)), "a decoded sequence holds other items");
                Ok(())
            })
        }
        2 => {
            let xs = entries(r);
            let page = |k: u64, p: u64, vs: Vec<Tok>| (Tok::M(vec![(Tok::S("key"), n(k)), (Tok::S("page"), n(p))]), Tok::L(vs));
            let mut rows = vec![];
            for k in 0..2u64 {
                let items: Vec<Tok> = xs.iter().filter(|x| x.0 as u64 % 2 == k).map(|x| n(x.1 as u64)).collect();
                for (p, c) in items.chunks(2).enumerate() {
                    rows.push(page(k, p as u64, c.to_vec()));
                }
            }
            let t = Tok::M(vec![(Tok::S("data"), Tok::M(rows))]);
            decode_all::<Paged<TK, TV, 2>>(ctx, "decoding a paged collection", &t, hint, few, |x| {
                let first = x.get(&TK::new(0), 0).map_or(0, |s| s.len());
                let want = xs.iter().filter(|x| x.0 % 2 == 0).count().min(2);
                ensure!(first == want, "a decoded paged collection holds other items");
                Ok(())
            })
        }
        _ => {
            let outer = r.below(4) as u64;
            let mut rows = vec![];
            for k in 0..outer {
                let xs = entries(r);
                let inner = xs.iter().map(|(a, v)| (n(*a as u64), Tok::L(vec![n(*v as u64); (*v % 3) as usize]))).collect();
                rows.push((n(k), Tok::M(inner)));
            }
            decode_all::<Map<TK, Map<TK, Seq<TV>>>>(ctx, "decoding a nested map", &Tok::M(rows), hint, few, |x| {
                ensure!(x.len() as u64 == outer, "a decoded nested map holds other entries");
                Ok(())
            })
        }
    }
}

// ---------------------------------------------------------------- nested

type Deep = Map<TK, Map<TK, Seq<TV>>>;
type DeepModel = BTreeMap<u16, BTreeMap<u16, Vec<u32>>>;

fn deep_sound(d: &Deep, m: &DeepModel) -> R {
    ensure!(d.len() == m.len(), "the outer map has {} entries, should have {}", d.len(), m.len());
    let full = d.as_hash_tree();
    let t = tree::from(&full);
    ensure!(t.hash() == d.root_hash(), "the outer root hash is not the hash of the full tree");
    let items = t.items();
    ensure!(items.len() == m.len(), "the full tree has {} entries", items.len());
    for (it, (k, inner)) in items.iter().zip(m) {
        let tree::Item::Key(label, sub) = it else { fail!("the full tree shows {:?}", it) };
        ensure!(*label == &k.to_be_bytes()[..], "the full tree shows another key than {}", k);
        let rows = sub.items();
        ensure!(rows.len() == inner.len(), "the inner map of {} has {} entries in the tree, should have {}", k, rows.len(), inner.len());
        for (row, (k2, xs)) in rows.iter().zip(inner) {
            let tree::Item::Key(l2, s) = row else { fail!("the inner tree shows {:?}", row) };
            let want = crate::seqc::chain(xs.iter().map(|x| tree::h_leaf(&x.to_be_bytes())));
            ensure!(*l2 == &k2.to_be_bytes()[..] && s.hash() == want, "in the tree, {}/{} does not commit to its {} items", k, k2, xs.len());
        }
        let real = d.get(k).ok_or_else(|| Fail(format!("key {} is gone", k)))?;
        ensure!(real.len() == inner.len() && real.root_hash() == sub.hash(), "the inner map of {} and the outer tree differ", k);
    }
    Ok(())
}

/// Changes at inner levels, then a failure, at each level of the call.
fn nested(ctx: &mut Ctx, r: &mut Rng) -> R {
    let n = r.range(2, if ctx.small { 6 } else { 25 });
    let steps: Vec<(u8, u16, u16, u32, u8)> = (0..n).map(|_| (r.below(10) as u8, r.below(4) as u16, r.below(4) as u16, r.u64() as u32, r.below(5) as u8)).collect();
    let look = r.range(1, 4);
    run_shrunk(steps, "nested maps with failing callbacks", |steps| {
        balanced("nested maps with failing callbacks", || {
            track::reset();
            let mut d: Deep = Map::new();
            let mut m: DeepModel = BTreeMap::new();
            for (i, &(op, a, b, x, at)) in steps.iter().enumerate() {
                let mut failed = true;
                match op {
                    0..=2 => {
                        d.entry(TK::new(a)).or_insert_with(Map::new).append_deep(TK::new(b), TV::new(x));
                        m.entry(a).or_default().entry(b).or_default().push(x);
                        failed = false;
                    }
                    3 => {
                        // At the outer level, after inner changes.
                        let done = attempt(|| {
                            d.entry(TK::new(a)).and_modify(|inner| {
                                for j in 0..at as u32 {
                                    inner.append_deep(TK::new(b + j as u16), TV::new(x));
                                }
                                boom(40)
                            });
                        })?;
                        ensure!(done.is_none() == m.contains_key(&a), "step {}: and_modify on {}", i, a);
                        if let Some(inner) = m.get_mut(&a) {
                            for j in 0..at as u32 {
                                inner.entry(b + j as u16).or_default().push(x);
                            }
                        }
                    }
                    4 => {
                        // Two levels down, under two mutable references.
                        let done = attempt(|| {
                            if let Some(s) = d.get_mut(&a).and_then(|q| q.get_mut(&b)) {
                                for _ in 0..at {
                                    s.append(TV::new(x));
                                }
                                boom(41)
                            }
                        })?;
                        let there = m.get_mut(&a).and_then(|q| q.get_mut(&b));
                        ensure!(done.is_none() == there.is_some(), "step {}: get_mut of {}/{}", i, a, b);
                        if let Some(s) = there {
                            s.extend(vec![x; at as usize]);
                        }
                    }
                    5 => {
                        // An iterator fails inside a callback inside a callback.
                        let len = m.get(&a).and_then(|q| q.get(&b)).map(|s| s.len());
                        let done = attempt(|| {
                            d.entry(TK::new(a)).and_modify(|inner| {
                                inner.entry(TK::new(b)).and_modify(|s| {
                                    s.extend(Broken { items: vec![x; at as usize].into_iter(), left: at as usize, hint: 0 });
                                });
                            });
                        })?;
                        ensure!(done.is_none() == len.is_some(), "step {}: extend in {}/{}", i, a, b);
                        if let Some(len) = len {
                            let now = d.get(&a).and_then(|q| q.get(&b)).map_or(0, |s| s.len());
                            ensure!(now >= len && now <= len + at as usize, "step {}: {} items after a failed extend of {} by {}", i, now, len, at);
                            m.get_mut(&a).unwrap().get_mut(&b).unwrap().extend(vec![x; now - len]);
                        }
                    }
                    6 => {
                        // The default fails at the inner level, after the outer entry was made.
                        let fresh = !m.get(&a).map_or(false, |q| q.contains_key(&b));
                        let done = attempt(|| {
                            d.entry(TK::new(a)).or_insert_with(Map::new).entry(TK::new(b)).or_insert_with(|| boom(42));
                        })?;
                        ensure!(done.is_none() == fresh, "step {}: or_insert_with in {}/{}", i, a, b);
                        m.entry(a).or_default();
                    }
                    7 => {
                        let done = attempt(|| {
                            d.as_tree().nested_witness(&a, |q| {
                                q.as_tree().nested_witness(&b, |_| boom(43))
                            });
                        })?;
                        ensure!(done.is_none() == m.get(&a).map_or(false, |q| q.contains_key(&b)), "step {}: nested_witness of {}/{}", i, a, b);
                    }
                    8 => {
                        // Removing inside, then failing.
                        let done = attempt(|| {
                            if let Some(q) = d.get_mut(&a) {
                                q.remove(&b);
                                q.root_hash();
                                q.insert(TK::new(b + 1), Seq::new());
                                boom(44)
                            }
                        })?;
                        ensure!(done.is_none() == m.contains_key(&a), "step {}: get_mut of {}", i, a);
                        if let Some(q) = m.get_mut(&a) {
                            q.remove(&b);
                            q.insert(b + 1, vec![]);
                        }
                    }
                    _ => {
                        let got = d.remove(&a);
                        ensure!(got.is_some() == m.remove(&a).is_some(), "step {}: remove {}", i, a);
                        failed = false;
                    }
                }
                no_errors()?;
                let keys = m.len() + m.values().map(|q| q.len()).sum::<usize>();
                let vals = m.values().flat_map(|q| q.values()).map(|s| s.len()).sum::<usize>();
                ensure!(track::live() == (keys as isize, vals as isize), "after step {} {:?}, (keys, values) {:?} are alive, should be {:?}", i, steps[i], track::live(), (keys, vals));
                if i % look == 0 || i + 1 == steps.len() {
                    deep_sound(&d, &m).map_err(|e| Fail(format!("after step {} {:?}: {}", i, steps[i], e.0)))?;
                }
                quiet(|| {
                    if failed {
                        ctx.count("failures injected", 1);
                        ctx.count("failures inside nested collections", 1);
                    }
                    let mut sg = Sig::new();
                    sg.add(format!("{} {} {:?}", op, at, m.iter().map(|(k, v)| (*k, v.iter().map(|(k, v)| (*k, v.len())).collect::<Vec<_>>())).collect::<Vec<_>>()).as_bytes());
                    if keys > 1 { ctx.seen(sg.0) } else { ctx.trivial() }
                });
            }
            drop(d);
            none_alive("after the nested collection was dropped")
        })
    })
}

// ---------------------------------------------------------------- groups

fn groups(ctx: &mut Ctx, r: &mut Rng) -> R {
    let seed = r.u64();
    balanced("a group with failing callbacks", || {
        let mut r = Rng::new(seed);
        let r = &mut r;
        track::reset();
        let map = |r: &mut Rng| -> Map<TK, TV> { (0..r.below(4)).map(|i| (TK::new(i as u16), TV::new(r.u64() as u32))).collect() };
        // The path fails while the group is built: all of it goes.
        let at = r.below(3);
        let (x, y, z) = (map(r), map(r), map(r));
        let got = attempt(|| {
            let b = GroupBuilder::new().insert(["a", "b"], Leaf::<0>(x)).insert(["c"], Leaf::<1>(y));
            let mut n = 0;
            b.insert(
                std::iter::from_fn(|| {
                    if n == at {
                        boom(50)
                    }
                    n += 1;
                    Some("p")
                }),
                Leaf::<2>(z),
            );
        })?;
        ensure!(got.is_none(), "GroupBuilder::insert swallowed the failure of the path");
        none_alive("after a path failed while a group was built")?;
        let (x, y) = (map(r), map(r));
        let n = (x.len() + y.len()) as isize;
        let mut g = GroupBuilder::new().insert(["a", "b"], Leaf::<0>(x)).insert(["c"], Leaf::<1>(y)).build();
        let mut count = n;
        for _ in 0..r.range(1, 5) {
            let root = g.root_hash();
            let mode = r.below(3);
            let k = r.below(5) as u16;
            let got = attempt(|| match mode {
                0 => {
                    let ray = g.witness().full::<Leaf<1>>();
                    let _ = ray.partial::<Leaf<0>, _>(|_| boom(51)).build();
                }
                1 => {
                    let _ = g
                        .witness()
                        .partial::<Leaf<0>, _>(|l| {
                            let _w = l.0.witness(&k);
                            boom(52)
                        })
                        .build();
                }
                _ => {
                    let l = g.get_mut::<Leaf<0>>();
                    l.0.insert(TK::new(k), TV::new(7));
                    boom(53)
                }
            })?;
            ensure!(got.is_none(), "a failing callback of a group was not called");
            no_errors()?;
            if mode == 2 {
                count = (g.get::<Leaf<0>>().0.len() + g.get::<Leaf<1>>().0.len()) as isize;
                ensure!(g.get::<Leaf<0>>().0.get(&k).map(|v| v.get()) == Some(7), "a change under get_mut is lost");
            } else {
                ensure!(g.root_hash() == root, "a failed witness changed the root hash of a group");
            }
            ensure!(track::live() == (count, count), "(keys, values) {:?} are alive, the group holds {}", track::live(), count);
            let full: HashTree = g.as_hash_tree();
            let w = g.witness().full::<Leaf<0>>().build();
            let t = tree::from(&full);
            ensure!(t.hash() == g.root_hash() && tree::from(&w).hash() == g.root_hash(), "after a failure, the group's tree and root hash differ");
            quiet(|| {
                ctx.count("failures injected", 1);
                ctx.count("failures in callbacks of a group", 1);
                let mut sg = Sig::new();
                sg.num(mode as u64);
                sg.add(&root);
                ctx.seen(sg.0)
            });
        }
        drop(g);
        none_alive("after the group was dropped")
    })
}

pub fn c17(ctx: &mut Ctx, r: &mut Rng) -> R {
    match r.below(16) {
        0..=3 => maps::<Map<TK, TV>>(ctx, r),
        4..=6 => maps::<RbTree<TK, TV>>(ctx, r),
        7 => exhaustive::<Map<TK, TV>>(ctx, r),
        8 => exhaustive::<RbTree<TK, TV>>(ctx, r),
        9 => seqs(ctx, r),
        10 => collect_map(ctx, r),
        11 | 12 => decoders(ctx, r),
        13 | 14 => nested(ctx, r),
        _ => groups(ctx, r),
    }
}
