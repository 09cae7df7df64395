//! A cheap stand-in for SHA-2, for the interpreter only: Miri runs real
//! SHA-256 a thousand times slower, and the properties it is used for do not
//! depend on which hash function is computed. The harness's reference code
//! uses the same stand-in in that build (feature `fake`).
pub trait Digest: Default {
    type Output;
    fn new() -> Self {
        Self::default()
    }
    fn update(&mut self, data: impl AsRef<[u8]>);
    fn chain(mut self, data: impl AsRef<[u8]>) -> Self {
        self.update(data);
        self
    }
    fn finalize(self) -> Self::Output;
    fn finalize_reset(&mut self) -> Self::Output {
        std::mem::take(self).finalize()
    }
    fn reset(&mut self) {
        *self = Self::default()
    }
    fn output_size() -> usize {
        std::mem::size_of::<Self::Output>()
    }
    fn digest(data: &[u8]) -> Self::Output {
        Self::new().chain(data).finalize()
    }
}

const ROOM: usize = 192;

/// Written for few interpreter steps.
pub fn toy(b: &[u8]) -> [u64; 8] {
    const M: u128 = 0x9e3779b97f4a7c15f39cc0605cedc835;
    let (mut a, mut c) = (b.len() as u128 + 1, M);
    let (mut p, mut n) = (b.as_ptr(), b.len());
    while n >= 16 {
        let x = unsafe { std::ptr::read_unaligned(p as *const [u8; 16]) };
        a = (a ^ u128::from_be_bytes(x)).wrapping_mul(M);
        c = (c ^ a >> 61) + 0;
        c = c.wrapping_mul(M | 2);
        p = unsafe { p.add(16) };
        n -= 16;
    }
    let mut w = [0u8; 16];
    unsafe { std::ptr::copy_nonoverlapping(p, w.as_mut_ptr(), n) };
    a = (a ^ u128::from_be_bytes(w)).wrapping_mul(M);
    c = (c ^ a >> 61).wrapping_mul(M | 2);
    let d = (a ^ c >> 67).wrapping_mul(M);
    let e = (c ^ d >> 59).wrapping_mul(M);
    let f = (d ^ e >> 71).wrapping_mul(M);
    let g = (e ^ f >> 64).wrapping_mul(M);
    [d as u64, (d >> 64) as u64, e as u64, (e >> 64) as u64, f as u64, (f >> 64) as u64, g as u64, (g >> 64) as u64]
}

macro_rules! hash {
    ($($n:ident, $len:expr;)*) => {$(
        #[derive(Clone)]
        pub struct $n {
            len: usize,
            room: std::mem::MaybeUninit<[u8; ROOM]>,
            /// Everything, once there is no room.
            more: Vec<u8>,
        }
        impl Default for $n {
            fn default() -> Self {
                $n { len: 0, room: std::mem::MaybeUninit::uninit(), more: Vec::new() }
            }
        }
        impl Digest for $n {
            type Output = [u8; $len];
            fn update(&mut self, data: impl AsRef<[u8]>) {
                let d = data.as_ref();
                let n = d.len();
                if self.len + n <= ROOM {
                    unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), (self.room.as_mut_ptr() as *mut u8).add(self.len), n) };
                } else {
                    if self.len <= ROOM {
                        self.more.extend_from_slice(unsafe { std::slice::from_raw_parts(self.room.as_ptr() as *const u8, self.len) });
                    }
                    self.more.extend_from_slice(d);
                }
                self.len += n;
            }
            fn finalize(self) -> [u8; $len] {
                let s = if self.len <= ROOM {
                    toy(unsafe { std::slice::from_raw_parts(self.room.as_ptr() as *const u8, self.len) })
                } else {
                    toy(&self.more)
                };
                let b: [[u8; 8]; 8] = [
                    s[0].to_be_bytes(), s[1].to_be_bytes(), s[2].to_be_bytes(), s[3].to_be_bytes(),
                    s[4].to_be_bytes(), s[5].to_be_bytes(), s[6].to_be_bytes(), s[7].to_be_bytes(),
                ];
                unsafe { std::ptr::read(b.as_ptr() as *const [u8; $len]) }
            }
        }
    )*};
}
hash! {
    Sha224, 28;
    Sha256, 32;
    Sha384, 48;
    Sha512, 64;
}
