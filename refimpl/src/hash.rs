//! Reference MD5, SHA-1, SHA-2 (constants computed), SM3.
use crate::bn::Bn;
use std::sync::OnceLock;

fn primes(n: usize) -> Vec<u64> {
    let mut v = vec![];
    let mut x = 2u64;
    while v.len() < n {
        if v.iter().all(|p| x % p != 0) { v.push(x); }
        x += 1;
    }
    v
}
/// first 64 bits of the fractional part of the k-th root of p
fn frac_root(p: u64, k: usize) -> u64 { Bn::from_u64(p).shl(64 * k).root(k).low_u64() }

struct K2 { k: [u64; 80], iv512: [u64; 8], iv384: [u64; 8] }
fn k2() -> &'static K2 {
    static S: OnceLock<K2> = OnceLock::new();
    S.get_or_init(|| {
        let p = primes(80);
        let mut k = [0; 80];
        for i in 0..80 { k[i] = frac_root(p[i], 3); }
        let (mut a, mut b) = ([0; 8], [0; 8]);
        for i in 0..8 { a[i] = frac_root(p[i], 2); b[i] = frac_root(p[i + 8], 2); }
        K2 { k, iv512: a, iv384: b }
    })
}

fn pad(msg_tail: &[u8], total: u128, block: usize, lenbytes: usize, be: bool) -> Vec<u8> {
    let mut v = msg_tail.to_vec();
    v.push(0x80);
    while v.len() % block != block - lenbytes { v.push(0); }
    let bits = total.wrapping_mul(8);
    let full = if be { bits.to_be_bytes().to_vec() } else { bits.to_le_bytes().to_vec() };
    if be { v.extend_from_slice(&full[16 - lenbytes..]); } else { v.extend_from_slice(&full[..lenbytes]); }
    v
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Alg { Md5, Sha1, Sha224, Sha256, Sha384, Sha512, Sha512t(usize), Sm3 }

impl Alg {
    pub fn block(&self) -> usize { match self { Alg::Sha384 | Alg::Sha512 | Alg::Sha512t(_) => 128, _ => 64 } }
    pub fn bits(&self) -> usize {
        match self { Alg::Md5 => 128, Alg::Sha1 => 160, Alg::Sha224 => 224, Alg::Sha256 | Alg::Sm3 => 256, Alg::Sha384 => 384, Alg::Sha512 => 512, Alg::Sha512t(t) => *t }
    }
    pub fn digest(&self, m: &[u8]) -> Vec<u8> { let mut s = Stream::new(*self); s.update(m); s.finish() }
}

/// streaming form, used directly for very long messages
#[derive(Clone)]
pub struct Stream { alg: Alg, h32: Vec<u32>, h64: Vec<u64>, buf: Vec<u8>, total: u128 }

impl Stream {
    pub fn new(alg: Alg) -> Stream {
        let c = k2();
        let (mut h32, mut h64) = (vec![], vec![]);
        match alg {
            Alg::Md5 => h32 = vec![0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476],
            Alg::Sha1 => h32 = vec![0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0],
            Alg::Sha224 => h32 = c.iv384.iter().map(|x| *x as u32).collect(),
            Alg::Sha256 => h32 = c.iv512.iter().map(|x| (*x >> 32) as u32).collect(),
            Alg::Sm3 => h32 = vec![0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e],
            Alg::Sha384 => h64 = c.iv384.to_vec(),
            Alg::Sha512 => h64 = c.iv512.to_vec(),
            Alg::Sha512t(t) => {
                let mut s = Stream::new(Alg::Sha512);
                for x in s.h64.iter_mut() { *x ^= 0xa5a5a5a5a5a5a5a5; }
                s.update(format!("SHA-512/{}", t).as_bytes());
                let d = s.finish();
                h64 = d.chunks(8).map(|c| u64::from_be_bytes(c.try_into().unwrap())).collect();
            }
        }
        Stream { alg, h32, h64, buf: vec![], total: 0 }
    }
    pub fn update(&mut self, mut m: &[u8]) {
        self.total += m.len() as u128;
        let b = self.alg.block();
        if !self.buf.is_empty() {
            let n = (b - self.buf.len()).min(m.len());
            self.buf.extend_from_slice(&m[..n]);
            m = &m[n..];
            if self.buf.len() == b { let t = std::mem::take(&mut self.buf); self.compress(&t); }
        }
        let whole = m.len() / b * b;
        for c in m[..whole].chunks(b) { self.compress(c); }
        self.buf.extend_from_slice(&m[whole..]);
    }
    pub fn finish(mut self) -> Vec<u8> {
        let (b, l) = match self.alg.block() { 64 => (64, 8), _ => (128, 16) };
        let p = pad(&self.buf, self.total, b, l, self.alg != Alg::Md5);
        for c in p.chunks(b) { self.compress(c); }
        let mut out: Vec<u8> = if self.alg == Alg::Md5 { self.h32.iter().flat_map(|x| x.to_le_bytes()).collect() }
            else if !self.h32.is_empty() { self.h32.iter().flat_map(|x| x.to_be_bytes()).collect() }
            else { self.h64.iter().flat_map(|x| x.to_be_bytes()).collect() };
        let bits = self.alg.bits();
        out.truncate((bits + 7) / 8);
        if bits % 8 != 0 { let n = out.len() - 1; out[n] &= 0xffu8 << (8 - bits % 8); }
        out
    }
    fn compress(&mut self, blk: &[u8]) {
        match self.alg {
            Alg::Md5 => md5(&mut self.h32, blk),
            Alg::Sha1 => sha1(&mut self.h32, blk),
            Alg::Sha224 | Alg::Sha256 => sha256(&mut self.h32, blk),
            Alg::Sm3 => sm3(&mut self.h32, blk),
            _ => sha512(&mut self.h64, blk),
        }
    }
}

fn md5(h: &mut [u32], blk: &[u8]) {
    static K: OnceLock<Vec<u32>> = OnceLock::new();
    let k = K.get_or_init(|| (0..64).map(|i| ((i as f64 + 1.0).sin().abs() * 4294967296.0) as u32).collect());
    const R: [[u32; 4]; 4] = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
    let m: Vec<u32> = blk.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
    let (mut a, mut b, mut c, mut d) = (h[0], h[1], h[2], h[3]);
    for i in 0..64 {
        let (f, g) = match i / 16 {
            0 => ((b & c) | (!b & d), i),
            1 => ((d & b) | (!d & c), (5 * i + 1) % 16),
            2 => (b ^ c ^ d, (3 * i + 5) % 16),
            _ => (c ^ (b | !d), (7 * i) % 16),
        };
        let t = a.wrapping_add(f).wrapping_add(k[i]).wrapping_add(m[g]);
        a = d; d = c; c = b;
        b = b.wrapping_add(t.rotate_left(R[i / 16][i % 4]));
    }
    for (x, y) in h.iter_mut().zip([a, b, c, d]) { *x = x.wrapping_add(y); }
}

fn sha1(h: &mut [u32], blk: &[u8]) {
    let mut w: Vec<u32> = blk.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
    for i in 16..80 { let t = w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]; w.push(t.rotate_left(1)); }
    let (mut a, mut b, mut c, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
    for i in 0..80 {
        let (f, k) = match i / 20 {
            0 => ((b & c) ^ (!b & d), 0x5a827999u32),
            1 => (b ^ c ^ d, 0x6ed9eba1),
            2 => ((b & c) ^ (b & d) ^ (c & d), 0x8f1bbcdc),
            _ => (b ^ c ^ d, 0xca62c1d6),
        };
        let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[i]);
        e = d; d = c; c = b.rotate_left(30); b = a; a = t;
    }
    for (x, y) in h.iter_mut().zip([a, b, c, d, e]) { *x = x.wrapping_add(y); }
}

fn sha256(h: &mut [u32], blk: &[u8]) {
    let k = &k2().k;
    let mut w = [0u32; 64];
    for i in 0..16 { w[i] = u32::from_be_bytes(blk[4 * i..4 * i + 4].try_into().unwrap()); }
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = [0u32; 8];
    v.copy_from_slice(h);
    for i in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add((k[i] >> 32) as u32).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for (x, y) in h.iter_mut().zip(v) { *x = x.wrapping_add(y); }
}

fn sha512(h: &mut [u64], blk: &[u8]) {
    let k = &k2().k;
    let mut w = [0u64; 80];
    for i in 0..16 { w[i] = u64::from_be_bytes(blk[8 * i..8 * i + 8].try_into().unwrap()); }
    for i in 16..80 {
        let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
        let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = [0u64; 8];
    v.copy_from_slice(h);
    for i in 0..80 {
        let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
        let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for (x, y) in h.iter_mut().zip(v) { *x = x.wrapping_add(y); }
}

fn sm3(h: &mut [u32], blk: &[u8]) {
    let p0 = |x: u32| x ^ x.rotate_left(9) ^ x.rotate_left(17);
    let p1 = |x: u32| x ^ x.rotate_left(15) ^ x.rotate_left(23);
    let mut w = [0u32; 68];
    for i in 0..16 { w[i] = u32::from_be_bytes(blk[4 * i..4 * i + 4].try_into().unwrap()); }
    for j in 16..68 { w[j] = p1(w[j - 16] ^ w[j - 9] ^ w[j - 3].rotate_left(15)) ^ w[j - 13].rotate_left(7) ^ w[j - 6]; }
    let mut v = [0u32; 8];
    v.copy_from_slice(h);
    for j in 0..64usize {
        let t: u32 = if j < 16 { 0x79cc4519 } else { 0x7a879d8a };
        let ss1 = v[0].rotate_left(12).wrapping_add(v[4]).wrapping_add(t.rotate_left((j % 32) as u32)).rotate_left(7);
        let ss2 = ss1 ^ v[0].rotate_left(12);
        let ff = if j < 16 { v[0] ^ v[1] ^ v[2] } else { (v[0] & v[1]) | (v[0] & v[2]) | (v[1] & v[2]) };
        let gg = if j < 16 { v[4] ^ v[5] ^ v[6] } else { (v[4] & v[5]) | (!v[4] & v[6]) };
        let tt1 = ff.wrapping_add(v[3]).wrapping_add(ss2).wrapping_add(w[j] ^ w[j + 4]);
        let tt2 = gg.wrapping_add(v[7]).wrapping_add(ss1).wrapping_add(w[j]);
        v = [tt1, v[0], v[1].rotate_left(9), v[2], p0(tt2), v[4], v[5].rotate_left(19), v[6]];
    }
    for (x, y) in h.iter_mut().zip(v) { *x ^= y; }
}
