//! SHA-256, written for this harness from FIPS 180-4, so that the oracle does
//! not share the hash implementation (or its call pattern) with the crate.

const K: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
    0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
    0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
    0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
    0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];

fn block(s: &mut [u32; 8], b: &[u8]) {
    let mut w = [0u32; 64];
    for i in 0..16 {
        w[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
    }
    for i in 16..64 {
        let a = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let c = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(a).wrapping_add(w[i - 7]).wrapping_add(c);
    }
    let mut v = *s;
    for i in 0..64 {
        let e1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(e1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
        let e0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = e0.wrapping_add(mj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 {
        s[i] = s[i].wrapping_add(v[i]);
    }
}

#[cfg(feature = "fake")]
pub fn sha256(parts: &[&[u8]]) -> [u8; 32] {
    let s = sha2::toy(&parts.concat());
    let mut out = [0; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&s[i].to_be_bytes());
    }
    out
}

#[cfg(not(feature = "fake"))]
pub fn sha256(parts: &[&[u8]]) -> [u8; 32] {
    let mut s: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
    ];
    let mut buf = [0u8; 64];
    let mut fill = 0usize;
    let mut total = 0u64;
    for p in parts {
        let mut p: &[u8] = p;
        total += p.len() as u64;
        while !p.is_empty() {
            if fill == 0 && p.len() >= 64 {
                block(&mut s, &p[..64]);
                p = &p[64..];
                continue;
            }
            let n = (64 - fill).min(p.len());
            buf[fill..fill + n].copy_from_slice(&p[..n]);
            fill += n;
            p = &p[n..];
            if fill == 64 {
                block(&mut s, &buf);
                fill = 0;
            }
        }
    }
    buf[fill] = 0x80;
    for x in buf[fill + 1..].iter_mut() {
        *x = 0;
    }
    if fill + 1 > 56 {
        block(&mut s, &buf);
        buf = [0u8; 64];
    }
    buf[56..].copy_from_slice(&(total * 8).to_be_bytes());
    block(&mut s, &buf);
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&s[i].to_be_bytes());
    }
    out
}

/// Known-answer self test, run before every check.
pub fn self_test() {
    let h = |b: &[u8]| crate::util::hex(&sha256(&[b]));
    assert_eq!(h(b""), "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855");
    assert_eq!(h(b"abc"), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
    assert_eq!(
        h(b"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"),
        "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1"
    );
}
