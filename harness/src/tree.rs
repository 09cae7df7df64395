//! Independent model of IC hash trees: own type, own hashing, own CBOR codec,
//! own label lookup.

use crate::sha::sha256;
use certified_vars::HashTree;

pub type H = [u8; 32];

#[derive(Clone, PartialEq, Eq)]
pub enum T {
    Empty,
    Fork(Box<(T, T)>),
    Labeled(Vec<u8>, Box<T>),
    Leaf(Vec<u8>),
    Pruned(H),
}

impl std::fmt::Debug for T {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        fn short(b: &[u8]) -> String {
            if b.len() > 24 {
                format!("{}..({} bytes)", crate::util::hex(&b[..24]), b.len())
            } else {
                crate::util::hex(b)
            }
        }
        match self {
            T::Empty => write!(f, "()"),
            T::Fork(p) => write!(f, "[{:?} {:?}]", p.0, p.1),
            T::Labeled(l, t) => write!(f, "{}=>{:?}", short(l), t),
            T::Leaf(b) => write!(f, "'{}'", short(b)),
            T::Pruned(h) => write!(f, "#{}", &crate::util::hex(h)[..8]),
        }
    }
}

pub fn from(t: &HashTree) -> T {
    match t {
        HashTree::Empty => T::Empty,
        HashTree::Fork(p) => T::Fork(Box::new((from(&p.0), from(&p.1)))),
        HashTree::Labeled(l, t) => T::Labeled(l.to_vec(), Box::new(from(t))),
        HashTree::Leaf(b) => T::Leaf(b.to_vec()),
        HashTree::Pruned(h) => T::Pruned(*h),
    }
}

pub fn h_empty() -> H {
    sha256(&[b"\x11ic-hashtree-empty"])
}
pub fn h_fork(l: &H, r: &H) -> H {
    sha256(&[b"\x10ic-hashtree-fork", l, r])
}
pub fn h_labeled(l: &[u8], t: &H) -> H {
    sha256(&[b"\x13ic-hashtree-labeled", l, t])
}
pub fn h_leaf(b: &[u8]) -> H {
    sha256(&[b"\x10ic-hashtree-leaf", b])
}

impl T {
    pub fn hash(&self) -> H {
        match self {
            T::Empty => h_empty(),
            T::Fork(p) => h_fork(&p.0.hash(), &p.1.hash()),
            T::Labeled(l, t) => h_labeled(l, &t.hash()),
            T::Leaf(b) => h_leaf(b),
            T::Pruned(h) => *h,
        }
    }
    pub fn leaf(b: &[u8]) -> T {
        T::Leaf(b.to_vec())
    }
    pub fn labels(&self) -> Vec<&[u8]> {
        let mut out = vec![];
        fn go<'a>(t: &'a T, out: &mut Vec<&'a [u8]>) {
            match t {
                T::Fork(p) => {
                    go(&p.0, out);
                    go(&p.1, out)
                }
                T::Labeled(l, t) => {
                    out.push(l);
                    go(t, out)
                }
                _ => {}
            }
        }
        go(self, &mut out);
        out
    }
    pub fn leaves(&self) -> Vec<&[u8]> {
        let mut out = vec![];
        fn go<'a>(t: &'a T, out: &mut Vec<&'a [u8]>) {
            match t {
                T::Fork(p) => {
                    go(&p.0, out);
                    go(&p.1, out)
                }
                T::Labeled(_, t) => go(t, out),
                T::Leaf(b) => out.push(b),
                _ => {}
            }
        }
        go(self, &mut out);
        out
    }
    pub fn size(&self) -> usize {
        match self {
            T::Fork(p) => 1 + p.0.size() + p.1.size(),
            T::Labeled(_, t) => 1 + t.size(),
            _ => 1,
        }
    }
    /// The entries of this level: forks flattened, in order.
    pub fn items(&self) -> Vec<Item<'_>> {
        let mut out = vec![];
        fn go<'a>(t: &'a T, out: &mut Vec<Item<'a>>) {
            match t {
                T::Empty => {}
                T::Fork(p) => {
                    go(&p.0, out);
                    go(&p.1, out)
                }
                T::Labeled(l, t) => out.push(Item::Key(l, t)),
                T::Leaf(b) => out.push(Item::Leaf(b)),
                T::Pruned(_) => out.push(Item::Gap),
            }
        }
        go(self, &mut out);
        out
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Item<'a> {
    Key(&'a [u8], &'a T),
    Leaf(&'a [u8]),
    Gap,
}

#[derive(Debug, PartialEq)]
pub enum Lookup<'a> {
    Found(&'a T),
    Absent,
    Unknown,
}

/// `find_label` of the interface specification.
pub fn find_label<'a>(label: &[u8], t: &'a T) -> Lookup<'a> {
    let items = t.items();
    for i in &items {
        if let Item::Key(l, t) = i {
            if *l == label {
                return Lookup::Found(t);
            }
        }
    }
    for w in items.windows(2) {
        if let [Item::Key(a, _), Item::Key(b, _)] = w {
            if *a < label && label < *b {
                return Lookup::Absent;
            }
        }
    }
    match items.first() {
        None => return Lookup::Absent,
        Some(Item::Key(l, _)) if label < *l => return Lookup::Absent,
        Some(Item::Leaf(_)) if items.len() == 1 => return Lookup::Absent,
        _ => {}
    }
    match items.last() {
        Some(Item::Key(l, _)) if *l < label => return Lookup::Absent,
        _ => {}
    }
    Lookup::Unknown
}

fn enc_head(major: u8, n: u64, out: &mut Vec<u8>) {
    let m = major << 5;
    if n < 24 {
        out.push(m | n as u8);
    } else if n < 256 {
        out.extend_from_slice(&[m | 24, n as u8]);
    } else if n < 65536 {
        out.push(m | 25);
        out.extend_from_slice(&(n as u16).to_be_bytes());
    } else if n < 1 << 32 {
        out.push(m | 26);
        out.extend_from_slice(&(n as u32).to_be_bytes());
    } else {
        out.push(m | 27);
        out.extend_from_slice(&n.to_be_bytes());
    }
}

pub fn encode(t: &T, out: &mut Vec<u8>) {
    match t {
        T::Empty => {
            enc_head(4, 1, out);
            out.push(0)
        }
        T::Fork(p) => {
            enc_head(4, 3, out);
            out.push(1);
            encode(&p.0, out);
            encode(&p.1, out);
        }
        T::Labeled(l, t) => {
            enc_head(4, 3, out);
            out.push(2);
            enc_head(2, l.len() as u64, out);
            out.extend_from_slice(l);
            encode(t, out);
        }
        T::Leaf(b) => {
            enc_head(4, 2, out);
            out.push(3);
            enc_head(2, b.len() as u64, out);
            out.extend_from_slice(b);
        }
        T::Pruned(h) => {
            enc_head(4, 2, out);
            out.push(4);
            enc_head(2, 32, out);
            out.extend_from_slice(h);
        }
    }
}

pub fn decode(b: &[u8]) -> Result<T, String> {
    fn head(b: &[u8], p: &mut usize) -> Result<(u8, u64), String> {
        let x = *b.get(*p).ok_or("truncated")?;
        *p += 1;
        let n = match x & 31 {
            v @ 0..=23 => v as u64,
            k @ 24..=27 => {
                let w = 1usize << (k - 24);
                let mut v = 0u64;
                for _ in 0..w {
                    v = v << 8 | *b.get(*p).ok_or("truncated")? as u64;
                    *p += 1;
                }
                v
            }
            _ => return Err("indefinite or reserved length".into()),
        };
        Ok((x >> 5, n))
    }
    fn bytes(b: &[u8], p: &mut usize) -> Result<Vec<u8>, String> {
        let (m, n) = head(b, p)?;
        if m != 2 {
            return Err(format!("expected a byte string, got major type {}", m));
        }
        let n = n as usize;
        if b.len() - *p < n {
            return Err("truncated bytes".into());
        }
        *p += n;
        Ok(b[*p - n..*p].to_vec())
    }
    fn go(b: &[u8], p: &mut usize) -> Result<T, String> {
        let (m, n) = head(b, p)?;
        if m != 4 {
            return Err(format!("expected an array, got major type {}", m));
        }
        let (tm, tag) = head(b, p)?;
        if tm != 0 {
            return Err("node tag is not an unsigned number".into());
        }
        match (tag, n) {
            (0, 1) => Ok(T::Empty),
            (1, 3) => {
                let l = go(b, p)?;
                let r = go(b, p)?;
                Ok(T::Fork(Box::new((l, r))))
            }
            (2, 3) => {
                let l = bytes(b, p)?;
                Ok(T::Labeled(l, Box::new(go(b, p)?)))
            }
            (3, 2) => Ok(T::Leaf(bytes(b, p)?)),
            (4, 2) => {
                let h = bytes(b, p)?;
                Ok(T::Pruned(h.try_into().map_err(|_| "digest is not 32 bytes".to_string())?))
            }
            _ => Err(format!("node tag {} with {} elements", tag, n)),
        }
    }
    let mut p = 0;
    let t = go(b, &mut p)?;
    if p != b.len() {
        return Err("trailing bytes".into());
    }
    Ok(t)
}

/// The specification's example tree, as a self test of the reference code.
pub fn self_test() {
    let lab = |l: &[u8], t: T| T::Labeled(l.to_vec(), Box::new(t));
    let fork = |l: T, r: T| T::Fork(Box::new((l, r)));
    let t = fork(
        fork(
            lab(b"a", fork(fork(lab(b"x", T::leaf(b"hello")), T::Empty), lab(b"y", T::leaf(b"world")))),
            lab(b"b", T::leaf(b"good")),
        ),
        fork(lab(b"c", T::Empty), lab(b"d", T::leaf(b"morning"))),
    );
    assert_eq!(
        crate::util::hex(&t.hash()),
        "eb5c5b2195e62d996b84c9bcc8259d19a83786a2f59e0878cec84c811f669aa0"
    );
    let mut e = vec![];
    encode(&t, &mut e);
    assert_eq!(crate::util::hex(&e), "8301830183024161830183018302417882034568656c6c6f810083024179820345776f726c6483024162820344676f6f648301830241638100830241648203476d6f726e696e67");
    assert_eq!(decode(&e).unwrap(), t);
}
