//! Instruments for ownership: keys and values that account for their lives,
//! and an allocator that counts what is outstanding.

use crate::kinds::{Key, Val};
use crate::tree::T;
use crate::util::Rng;
use candid::CandidType;
use certified_vars::label::{Label, Prefix};
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Hash, HashTree, Map};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::alloc::{GlobalAlloc, Layout, System};
use std::borrow::{Borrow, Cow};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;

thread_local! {
    static BYTES: Cell<isize> = const { Cell::new(0) };
    static BLOCKS: Cell<isize> = const { Cell::new(0) };
}

pub struct Counting;

thread_local! {
    static QUIET: Cell<u32> = const { Cell::new(0) };
}

/// The instruments' own memory is not counted; what is allocated inside must
/// be freed inside.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    QUIET.with(|q| q.set(q.get() + 1));
    let t = f();
    QUIET.with(|q| q.set(q.get() - 1));
    t
}

fn add(bytes: isize, blocks: isize) {
    if QUIET.try_with(|q| q.get()).unwrap_or(1) > 0 {
        return;
    }
    let _ = BYTES.try_with(|c| c.set(c.get() + bytes));
    let _ = BLOCKS.try_with(|c| c.set(c.get() + blocks));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as isize, 1);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as isize, 1);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as isize), -1);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as isize - l.size() as isize, 0);
        }
        q
    }
}

/// Outstanding (bytes, blocks) of this thread.
pub fn outstanding() -> (isize, isize) {
    (BYTES.with(|c| c.get()), BLOCKS.with(|c| c.get()))
}

#[derive(Default)]
struct Ledger {
    /// Per instance: 0 never made, 1 alive, 2 dropped.
    state: Vec<u8>,
    live: [isize; 2],
    errors: Vec<String>,
    /// What every instance carried, to recognize foreign memory.
    payload: Vec<u32>,
}

thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
}

/// Forget everything (no instance may be alive).
pub fn reset() {
    quiet(|| LEDGER.with(|l| *l.borrow_mut() = Ledger::default()));
}

/// Live (keys, values).
pub fn live() -> (isize, isize) {
    LEDGER.with(|l| (l.borrow().live[0], l.borrow().live[1]))
}

pub fn errors() -> Vec<String> {
    LEDGER.with(|l| l.borrow().errors.clone())
}

pub fn made() -> usize {
    LEDGER.with(|l| l.borrow().state.len())
}

#[derive(Debug)]
struct Life {
    id: usize,
    kind: usize,
    /// Real heap memory, so that the sanitizers see the accesses.
    payload: Box<u32>,
}

impl Life {
    fn new(kind: usize, payload: u32) -> Life {
        let id = quiet(|| {
            LEDGER.with(|l| {
                let mut l = l.borrow_mut();
                l.state.push(1);
                l.payload.push(payload);
                l.live[kind] += 1;
                l.state.len() - 1
            })
        });
        Life { id, kind, payload: Box::new(payload) }
    }
    fn check(&self) -> u32 {
        let p = *self.payload;
        quiet(|| {
            LEDGER.with(|l| {
                let mut l = l.borrow_mut();
                if l.state.get(self.id) != Some(&1) {
                    let e = format!("instance {} ({}) is used after it was dropped", self.id, ["key", "value"][self.kind.min(1)]);
                    l.errors.push(e);
                } else if l.payload[self.id] != p {
                    let e = format!("instance {} carries {}, was made with {}", self.id, p, l.payload[self.id]);
                    l.errors.push(e);
                }
            })
        });
        p
    }
    /// The owner changes the payload in place.
    fn set(&mut self, p: u32) {
        self.check();
        *self.payload = p;
        LEDGER.with(|l| l.borrow_mut().payload[self.id] = p);
    }
}

impl Drop for Life {
    fn drop(&mut self) {
        quiet(|| {
            LEDGER.with(|l| {
                let mut l = l.borrow_mut();
                let kind = self.kind.min(1);
                if l.state.get(self.id) == Some(&1) {
                    l.state[self.id] = 2;
                    l.live[kind] -= 1;
                } else {
                    let e = format!("instance {} ({}) is dropped twice", self.id, ["key", "value"][kind]);
                    l.errors.push(e);
                }
            })
        });
    }
}

/// A tracked key.
#[derive(Debug)]
pub struct TK(Life, u16);
/// A tracked value.
#[derive(Debug)]
pub struct TV(Life);

impl TK {
    pub fn new(x: u16) -> TK {
        TK(Life::new(0, x as u32), x)
    }
    pub fn get(&self) -> u16 {
        self.0.check() as u16
    }
}
impl TV {
    pub fn new(x: u32) -> TV {
        TV(Life::new(1, x))
    }
    pub fn get(&self) -> u32 {
        self.0.check()
    }
    pub fn set(&mut self, x: u32) {
        self.0.set(x)
    }
}
impl Clone for TK {
    fn clone(&self) -> Self {
        TK::new(self.get())
    }
}
impl Clone for TV {
    fn clone(&self) -> Self {
        TV::new(self.get())
    }
}
impl PartialEq for TK {
    fn eq(&self, o: &TK) -> bool {
        self.get() == o.get()
    }
}
impl Eq for TK {}
impl PartialOrd for TK {
    fn partial_cmp(&self, o: &TK) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TK {
    fn cmp(&self, o: &TK) -> Ordering {
        self.get().cmp(&o.get())
    }
}
impl PartialEq for TV {
    fn eq(&self, o: &TV) -> bool {
        self.get() == o.get()
    }
}
impl Default for TV {
    fn default() -> Self {
        TV::new(0)
    }
}
impl Label for TK {
    fn as_label(&self) -> Cow<'_, [u8]> {
        Cow::Owned(self.get().to_be_bytes().to_vec())
    }
}
impl Borrow<u16> for TK {
    fn borrow(&self) -> &u16 {
        self.0.check();
        &self.1
    }
}
impl Prefix<u16> for TK {}
impl AsHashTree for TV {
    fn root_hash(&self) -> Hash {
        self.get().root_hash()
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        HashTree::Leaf(Cow::Owned(self.get().to_be_bytes().to_vec()))
    }
}
impl Key for TK {
    const NAME: &'static str = "tracked key";
    const FIXED: bool = true;
    fn gen(r: &mut Rng, style: u32, i: usize) -> Self {
        TK::new(u16::gen(r, style, i))
    }
    fn bytes(&self) -> Vec<u8> {
        self.get().to_be_bytes().to_vec()
    }
    const PREFIX: bool = true;
    fn gen_prefix(r: &mut Rng, of: &Self) -> Vec<u8> {
        of.get().wrapping_add(r.below(3) as u16).wrapping_sub(1).to_be_bytes().to_vec()
    }
    fn has_prefix(&self, p: &[u8]) -> bool {
        self.bytes() == p
    }
    fn before_prefix(&self, p: &[u8]) -> bool {
        &self.bytes()[..] < p
    }
    fn prefix_witness<'a, V: AsHashTree + 'static>(t: &'a RbTree<Self, V>, p: &[u8]) -> HashTree<'a> {
        t.keys_with_prefix::<u16>(&u16::from_be_bytes([p[0], p[1]]))
    }
    fn map_prefix_witness<'a, V: AsHashTree + 'static>(t: &'a Map<Self, V>, p: &[u8]) -> HashTree<'a> {
        t.witness_keys_with_prefix::<u16>(&u16::from_be_bytes([p[0], p[1]]))
    }
    fn max_prefix<'a, V: AsHashTree + 'static>(t: &'a RbTree<Self, V>, p: &[u8]) -> Option<(&'a Self, &'a V)> {
        t.max_entry_with_prefix::<u16>(&u16::from_be_bytes([p[0], p[1]]))
    }
    fn modify_max<V: AsHashTree + 'static, X>(t: &mut RbTree<Self, V>, p: &[u8], f: &mut dyn FnMut(&Self, &mut V) -> X) -> Option<X> {
        t.modify_max_with_prefix::<u16, _>(&u16::from_be_bytes([p[0], p[1]]), |k, v| f(k, v))
    }
}
impl Val for TV {
    const NAME: &'static str = "tracked value";
    fn gen(r: &mut Rng) -> Self {
        TV::new(r.u64() as u32)
    }
    fn t(&self) -> T {
        T::leaf(&self.get().to_be_bytes())
    }
    fn dflt() -> Self {
        TV::new(0)
    }
    fn or_default<'a, K: Label + 'static>(e: certified_vars::rbtree::entry::Entry<'a, K, Self>) -> &'a mut Self {
        e.or_default()
    }
}

impl Serialize for TK {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.get().serialize(s)
    }
}
impl Serialize for TV {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.get().serialize(s)
    }
}
impl<'de> Deserialize<'de> for TK {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        u16::deserialize(d).map(TK::new)
    }
}
impl<'de> Deserialize<'de> for TV {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        u32::deserialize(d).map(TV::new)
    }
}
impl CandidType for TK {
    fn _ty() -> candid::types::Type {
        u16::_ty()
    }
    fn idl_serialize<S: candid::types::Serializer>(&self, s: S) -> Result<(), S::Error> {
        self.get().idl_serialize(s)
    }
}
impl CandidType for TV {
    fn _ty() -> candid::types::Type {
        u32::_ty()
    }
    fn idl_serialize<S: candid::types::Serializer>(&self, s: S) -> Result<(), S::Error> {
        self.get().idl_serialize(s)
    }
}
