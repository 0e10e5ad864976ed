//! Reference HMAC (FIPS 198-1) and CMAC (SP 800-38B, any block size).
use crate::block::RefCipher;

pub fn hmac(h: &dyn Fn(&[u8]) -> Vec<u8>, block: usize, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > block { h(key) } else { key.to_vec() };
    k.resize(block, 0);
    let mut i: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    i.extend_from_slice(msg);
    let mut o: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    o.extend_from_slice(&h(&i));
    h(&o)
}

/// doubling in GF(2^n) for the lexicographically first irreducible polynomial of minimum weight
fn dbl(x: &[u8], rb: u32) -> Vec<u8> {
    let n = x.len();
    let mut r = vec![0u8; n];
    for i in 0..n { r[i] = (x[i] << 1) | if i + 1 < n { x[i + 1] >> 7 } else { 0 }; }
    if x[0] & 0x80 != 0 {
        for i in 0..4.min(n) { r[n - 1 - i] ^= (rb >> (8 * i)) as u8; }
    }
    r
}

/// low part of the field polynomial per block size in bytes
pub fn rb(bs: usize) -> Option<u32> {
    let e = |v: &[u32]| Some(v.iter().fold(1u32, |a, s| a | (1 << s)));
    match bs {
        4 => e(&[7, 3, 2]), 6 => e(&[5, 3, 2]), 8 => e(&[4, 3, 1]), 12 => e(&[10, 9, 6]), 16 => e(&[7, 2, 1]),
        20 => e(&[5, 3, 2]), 24 => e(&[7, 2, 1]), 28 => e(&[9, 8, 3]), 32 => e(&[10, 5, 2]), 40 => e(&[4, 3, 1]),
        48 => e(&[12, 3, 2]), 56 => e(&[11, 6, 4]), 64 => e(&[8, 5, 2]), 96 => e(&[19, 17, 4]), 128 => e(&[19, 6, 1]),
        256 => e(&[19, 14, 13]), _ => None,
    }
}

pub fn cmac(c: &dyn RefCipher, msg: &[u8]) -> Vec<u8> {
    let b = c.bs();
    let r = rb(b).unwrap();
    let l = c.enc(&vec![0u8; b]);
    let k1 = dbl(&l, r);
    let k2 = dbl(&k1, r);
    let n = if msg.is_empty() { 1 } else { (msg.len() + b - 1) / b };
    let mut x = vec![0u8; b];
    for i in 0..n {
        let mut m = msg[i * b..msg.len().min((i + 1) * b)].to_vec();
        if i == n - 1 {
            let k = if m.len() == b { &k1 } else { m.push(0x80); m.resize(b, 0); &k2 };
            for j in 0..b { m[j] ^= k[j]; }
        }
        for j in 0..b { x[j] ^= m[j]; }
        x = c.enc(&x);
    }
    x
}
