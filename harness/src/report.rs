//! Bookkeeping of one process: what was observed, what failed, and where a
//! crash happened.

use crate::util::{Rng, Sig};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A monitor saw the property fail.
#[derive(Clone, Debug)]
pub struct Fail(pub String);
pub type R<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::report::Fail(format!($($a)*))); } };
}
#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::report::Fail(format!($($a)*))) };
}

static DEADLINE: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();

/// Cases under an interpreter end early once their time is over.
pub fn deadline(t: std::time::Instant) {
    let _ = DEADLINE.set(t);
}

pub fn late() -> bool {
    cfg!(miri) && DEADLINE.get().map_or(false, |t| std::time::Instant::now() > *t)
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub case: u64,
    /// Small workloads only (interpreters, sanitizers).
    pub small: bool,
    /// Include the cases with the largest collections.
    pub huge: bool,
    pub evaluations: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub findings: BTreeMap<String, u64>,
    /// Root hash -> signature of the contents it was reported for.
    pub roots: std::collections::HashMap<[u8; 32], u64>,
    pub digest: Sig,
    /// Digest of each case, in order.
    pub digests: Vec<(u64, u64)>,
    /// Print every observation.
    pub log: bool,
    crumb: Option<std::fs::File>,
}

const DISTINCT_CAP: usize = 1_000_000;

impl Ctx {
    pub fn new(prop: &str, seed: u64, tier: Tier, crumb: Option<&str>) -> Ctx {
        Ctx {
            prop: prop.into(),
            seed,
            tier,
            case: 0,
            small: false,
            huge: true,
            evaluations: 0,
            counters: Default::default(),
            distinct: Default::default(),
            samples: vec![],
            findings: Default::default(),
            roots: Default::default(),
            digest: Sig::new(),
            digests: vec![],
            log: false,
            crumb: crumb.map(|p| std::fs::File::create(p).expect("crumb file")),
        }
    }
    pub fn count(&mut self, what: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(what) {
            *c += n;
        } else {
            self.counters.insert(what.to_string(), n);
        }
    }
    pub fn max(&mut self, what: &str, n: u64) {
        let e = self.counters.entry(format!("max {}", what)).or_insert(0);
        *e = (*e).max(n);
    }
    /// One evaluated situation, with the signature that makes it distinct.
    pub fn seen(&mut self, sig: u64) {
        self.evaluations += 1;
        if self.distinct.len() < DISTINCT_CAP {
            self.distinct.insert(sig);
        }
    }
    /// One evaluated situation that is trivial by the check's rule.
    pub fn trivial(&mut self) {
        self.evaluations += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 && !cfg!(miri) {
            let s = crate::util::clip(f(), 1500);
            self.samples.push(s);
        }
    }
    pub fn finding(&mut self, what: &str) {
        *self.findings.entry(what.to_string()).or_insert(0) += 1;
    }
    /// Note what is about to run, so that a crash can be attributed.
    pub fn crumb(&mut self, note: &str) {
        let (case, seed) = (self.case, self.seed);
        if let Some(f) = &mut self.crumb {
            let line = format!("{} {} {}", seed, case, note);
            let _ = f.seek(std::io::SeekFrom::Start(0));
            let _ = f.set_len(0);
            let _ = f.write_all(line.as_bytes());
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

/// Payload of the panics the harness injects on purpose.
pub struct Injected(pub u32);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(opaque)".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub enum Caught {
    /// The harness itself panicked: an error of the check, never a violation.
    Harness(String),
    /// The code under test panicked.
    Subject(String),
    Injected(u32),
}

pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if let Some(i) = p.downcast_ref::<Injected>() {
                return Err(Caught::Injected(i.0));
            }
            let (msg, loc) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let s = format!("panic at {}: {}", loc, msg);
            // Harness files are compiled from "src/...", the crate under test
            // from an absolute path.
            if loc.starts_with("src/") || loc.contains("harness/src/") {
                Err(Caught::Harness(s))
            } else {
                Err(Caught::Subject(s))
            }
        }
    }
}

/// Run a monitored execution; a panic of the code under test is a failure of
/// the property (callers pass only valid calls here).
pub fn guarded(f: impl FnOnce() -> R) -> R {
    match caught(f) {
        Ok(r) => r,
        Err(Caught::Subject(s)) => Err(Fail(format!("a valid call panicked: {}", s))),
        Err(Caught::Injected(n)) => Err(Fail(format!("injected panic {} escaped", n))),
        Err(Caught::Harness(s)) => {
            eprintln!("HARNESS-ERROR {}", s);
            std::process::exit(2)
        }
    }
}

/// Delta debugging over a list of steps. `bad` must be deterministic.
pub fn shrink<X: Clone>(xs: Vec<X>, budget: usize, mut bad: impl FnMut(&[X]) -> Option<String>) -> (Vec<X>, Option<String>) {
    let mut cur = xs;
    let mut msg = None;
    let mut tries = 0;
    let mut chunk = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut progress = false;
        while i < cur.len() && tries < budget {
            let mut cand = cur[..i].to_vec();
            cand.extend_from_slice(&cur[(i + chunk).min(cur.len())..]);
            tries += 1;
            if let Some(m) = bad(&cand) {
                cur = cand;
                msg = Some(m);
                progress = true;
            } else {
                i += chunk;
            }
        }
        if tries >= budget || (chunk == 1 && !progress) {
            return (cur, msg);
        }
        if !progress || chunk > cur.len() {
            chunk = (chunk / 2).max(1);
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Ctx {
    /// Signatures of the distinct situations, for the driver to merge.
    pub fn sig_bytes(&self) -> Vec<u8> {
        self.distinct.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
    pub fn to_json(&self, cases: u64, violation: Option<(u64, &str)>) -> String {
        let map = |m: &BTreeMap<String, u64>| {
            m.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",")
        };
        format!(
            "{{\"digests\":[{}],\"cases\":{},\"evaluations\":{},\"distinct\":{},\"counters\":{{{}}},\"findings\":{{{}}},\"samples\":[{}],\"violation\":{}}}\n",
            self.digests.iter().map(|(c, d)| format!("[{},\"{:016x}\"]", c, d)).collect::<Vec<_>>().join(","),
            cases,
            self.evaluations,
            self.distinct.len(),
            map(&self.counters),
            map(&self.findings),
            self.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
            match violation {
                None => "null".into(),
                Some((c, m)) => format!("{{\"case\":{},\"message\":{}}}", c, json_str(m)),
            }
        )
    }
}

pub fn case_rng(prop: &str, seed: u64, case: u64) -> Rng {
    let mut s = Sig::new();
    s.add(prop.as_bytes());
    Rng::new(crate::util::seed_of(&[s.0, seed, case]))
}
