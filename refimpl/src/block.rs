//! Reference block ciphers: AES (S-box computed), DES (FIPS 46-3 tables), SM4 (S-box computed).
use std::sync::OnceLock;

pub trait RefCipher {
    fn bs(&self) -> usize;
    fn enc(&self, b: &[u8]) -> Vec<u8>;
    fn dec(&self, b: &[u8]) -> Vec<u8>;
}

fn gmul(mut a: u16, mut b: u16, poly: u16) -> u8 {
    let mut r = 0u16;
    while b > 0 {
        if b & 1 == 1 { r ^= a; }
        a <<= 1;
        if a & 0x100 != 0 { a ^= poly; }
        b >>= 1;
    }
    r as u8
}
fn ginv(a: u8, poly: u16) -> u8 {
    if a == 0 { return 0; }
    (1..=255u16).find(|&x| gmul(a as u16, x, poly) == 1).unwrap() as u8
}

// ---------------------------------------------------------------- AES
fn aes_sbox() -> &'static ([u8; 256], [u8; 256]) {
    static S: OnceLock<([u8; 256], [u8; 256])> = OnceLock::new();
    S.get_or_init(|| {
        let (mut s, mut si) = ([0u8; 256], [0u8; 256]);
        for x in 0..256 {
            let b = ginv(x as u8, 0x11b);
            let y = b ^ b.rotate_left(1) ^ b.rotate_left(2) ^ b.rotate_left(3) ^ b.rotate_left(4) ^ 0x63;
            s[x] = y;
            si[y as usize] = x as u8;
        }
        (s, si)
    })
}

#[derive(Clone)]
pub struct Aes { w: Vec<[u8; 4]>, nr: usize }

impl Aes {
    pub fn new(key: &[u8]) -> Aes {
        let nk = key.len() / 4;
        assert!(nk == 4 || nk == 6 || nk == 8);
        let nr = nk + 6;
        let sb = &aes_sbox().0;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
        let mut rcon = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = [sb[t[1] as usize] ^ rcon, sb[t[2] as usize], sb[t[3] as usize], sb[t[0] as usize]];
                rcon = gmul(rcon as u16, 2, 0x11b);
            } else if nk > 6 && i % nk == 4 {
                for x in t.iter_mut() { *x = sb[*x as usize]; }
            }
            let p = w[i - nk];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        Aes { w, nr }
    }
    fn ark(&self, s: &mut [u8; 16], r: usize) {
        for c in 0..4 { for i in 0..4 { s[4 * c + i] ^= self.w[4 * r + c][i]; } }
    }
}
impl RefCipher for Aes {
    fn bs(&self) -> usize { 16 }
    fn enc(&self, b: &[u8]) -> Vec<u8> {
        let sb = &aes_sbox().0;
        let mut s = [0u8; 16];
        s.copy_from_slice(b);
        self.ark(&mut s, 0);
        for r in 1..=self.nr {
            let mut t = [0u8; 16];
            for c in 0..4 { for i in 0..4 { t[4 * c + i] = sb[s[4 * ((c + i) % 4) + i] as usize]; } }
            if r != self.nr {
                for c in 0..4 {
                    let a = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                    let x2 = |v: u8| (v << 1) ^ if v & 0x80 != 0 { 0x1b } else { 0 };
                    for i in 0..4 {
                        t[4 * c + i] = x2(a[i]) ^ x2(a[(i + 1) % 4]) ^ a[(i + 1) % 4] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4];
                    }
                }
            }
            s = t;
            self.ark(&mut s, r);
        }
        s.to_vec()
    }
    fn dec(&self, b: &[u8]) -> Vec<u8> {
        let si = &aes_sbox().1;
        let mut s = [0u8; 16];
        s.copy_from_slice(b);
        for r in (1..=self.nr).rev() {
            self.ark(&mut s, r);
            if r != self.nr {
                let mut t = [0u8; 16];
                for c in 0..4 {
                    for i in 0..4 {
                        let mut v = 0;
                        for (j, k) in [14u16, 11, 13, 9].iter().enumerate() { v ^= gmul(s[4 * c + (i + j) % 4] as u16, *k, 0x11b); }
                        t[4 * c + i] = v;
                    }
                }
                s = t;
            }
            let mut t = [0u8; 16];
            for c in 0..4 { for i in 0..4 { t[4 * ((c + i) % 4) + i] = si[s[4 * c + i] as usize]; } }
            s = t;
        }
        self.ark(&mut s, 0);
        s.to_vec()
    }
}

// ---------------------------------------------------------------- DES
const IP: [u8; 64] = [58,50,42,34,26,18,10,2,60,52,44,36,28,20,12,4,62,54,46,38,30,22,14,6,64,56,48,40,32,24,16,8,
 57,49,41,33,25,17,9,1,59,51,43,35,27,19,11,3,61,53,45,37,29,21,13,5,63,55,47,39,31,23,15,7];
const E: [u8; 48] = [32,1,2,3,4,5,4,5,6,7,8,9,8,9,10,11,12,13,12,13,14,15,16,17,16,17,18,19,20,21,20,21,22,23,24,25,24,25,26,27,28,29,28,29,30,31,32,1];
const PP: [u8; 32] = [16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25];
const PC1: [u8; 56] = [57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,
 63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4];
const PC2: [u8; 48] = [14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,26,8,16,7,27,20,13,2,41,52,31,37,47,55,30,40,51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32];
const SB: [[u8; 64]; 8] = [
 [14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7,0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8,4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0,15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,13],
 [15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10,3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5,0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15,13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9],
 [10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8,13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1,13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7,1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12],
 [7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15,13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9,10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4,3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14],
 [2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9,14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6,4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14,11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3],
 [12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11,10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8,9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6,4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13],
 [4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1,13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6,1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2,6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12],
 [13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7,1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2,7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8,2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11]];

fn perm(x: u64, inbits: u32, t: &[u8]) -> u64 {
    t.iter().fold(0, |r, &p| (r << 1) | ((x >> (inbits - p as u32)) & 1))
}

#[derive(Clone)]
pub struct Des { ks: [u64; 16] }
impl Des {
    pub fn new(key: &[u8]) -> Des {
        let k = u64::from_be_bytes(key.try_into().unwrap());
        let cd = perm(k, 64, &PC1);
        let (mut c, mut d) = (cd >> 28, cd & 0xfffffff);
        let mut ks = [0; 16];
        for i in 0..16 {
            let n = if [0, 1, 8, 15].contains(&i) { 1 } else { 2 };
            c = ((c << n) | (c >> (28 - n))) & 0xfffffff;
            d = ((d << n) | (d >> (28 - n))) & 0xfffffff;
            ks[i] = perm((c << 28) | d, 56, &PC2);
        }
        Des { ks }
    }
    fn run(&self, b: &[u8], dec: bool) -> Vec<u8> {
        let x = perm(u64::from_be_bytes(b.try_into().unwrap()), 64, &IP);
        let (mut l, mut r) = (x >> 32, x & 0xffffffff);
        for i in 0..16 {
            let k = self.ks[if dec { 15 - i } else { i }];
            let e = perm(r, 32, &E) ^ k;
            let mut f = 0u64;
            for s in 0..8 {
                let six = (e >> (42 - 6 * s)) & 0x3f;
                let row = ((six >> 4) & 2) | (six & 1);
                let col = (six >> 1) & 15;
                f = (f << 4) | SB[s as usize][(row * 16 + col) as usize] as u64;
            }
            let f = perm(f, 32, &PP);
            let nl = r;
            r = l ^ f;
            l = nl;
        }
        let y = (r << 32) | l;
        // inverse of IP
        let mut out = 0u64;
        for (i, &p) in IP.iter().enumerate() { out |= ((y >> (63 - i)) & 1) << (64 - p as u32); }
        out.to_be_bytes().to_vec()
    }
}
impl RefCipher for Des {
    fn bs(&self) -> usize { 8 }
    fn enc(&self, b: &[u8]) -> Vec<u8> { self.run(b, false) }
    fn dec(&self, b: &[u8]) -> Vec<u8> { self.run(b, true) }
}
#[derive(Clone)]
pub struct Tdes { a: Des, b: Des, c: Des }
impl Tdes {
    pub fn new(k1: &[u8], k2: &[u8], k3: &[u8]) -> Tdes { Tdes { a: Des::new(k1), b: Des::new(k2), c: Des::new(k3) } }
}
impl RefCipher for Tdes {
    fn bs(&self) -> usize { 8 }
    fn enc(&self, b: &[u8]) -> Vec<u8> { self.c.enc(&self.b.dec(&self.a.enc(b))) }
    fn dec(&self, b: &[u8]) -> Vec<u8> { self.a.dec(&self.b.enc(&self.c.dec(b))) }
}

// ---------------------------------------------------------------- SM4
fn sm4_sbox() -> &'static [u8; 256] {
    static S: OnceLock<[u8; 256]> = OnceLock::new();
    S.get_or_init(|| {
        // S(x) = A * inv(A * x + C) + C over GF(2)[x]/(x^8+x^7+x^6+x^5+x^4+x^2+1), C = 0xD3,
        // A circulant with first row 11010011
        let aff = |x: u8| -> u8 {
            let mut r = 0u8;
            let mut row = 0xD3u8;
            for i in 0..8 {
                // row i applies to bits x0..x7 written most significant first
                if (row & x).count_ones() & 1 == 1 { r |= 0x80 >> i; }
                row = row.rotate_right(1);
            }
            r ^ 0xD3
        };
        let mut s = [0u8; 256];
        for x in 0..256 { s[x] = aff(ginv(aff(x as u8), 0x1F5)); }
        s
    })
}
#[derive(Clone)]
pub struct Sm4 { rk: [u32; 32] }
fn sm4_tau(x: u32) -> u32 {
    let s = sm4_sbox();
    u32::from_be_bytes(x.to_be_bytes().map(|b| s[b as usize]))
}
impl Sm4 {
    pub fn sbox() -> &'static [u8; 256] { sm4_sbox() }
    pub fn new(key: &[u8]) -> Sm4 {
        let fk = [0xA3B1BAC6u32, 0x56AA3350, 0x677D9197, 0xB27022DC];
        let mut k: Vec<u32> = (0..4).map(|i| u32::from_be_bytes(key[4 * i..4 * i + 4].try_into().unwrap()) ^ fk[i]).collect();
        let mut rk = [0u32; 32];
        for i in 0..32u32 {
            let ck = u32::from_be_bytes([0, 1, 2, 3].map(|j| ((4 * i + j) * 7) as u8));
            let t = sm4_tau(k[1] ^ k[2] ^ k[3] ^ ck);
            let n = k[0] ^ t ^ t.rotate_left(13) ^ t.rotate_left(23);
            k = vec![k[1], k[2], k[3], n];
            rk[i as usize] = n;
        }
        Sm4 { rk }
    }
    fn run(&self, b: &[u8], dec: bool) -> Vec<u8> {
        let mut x: Vec<u32> = (0..4).map(|i| u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap())).collect();
        for i in 0..32 {
            let t = sm4_tau(x[1] ^ x[2] ^ x[3] ^ self.rk[if dec { 31 - i } else { i }]);
            let n = x[0] ^ t ^ t.rotate_left(2) ^ t.rotate_left(10) ^ t.rotate_left(18) ^ t.rotate_left(24);
            x = vec![x[1], x[2], x[3], n];
        }
        x.iter().rev().flat_map(|w| w.to_be_bytes()).collect()
    }
}
impl RefCipher for Sm4 {
    fn bs(&self) -> usize { 16 }
    fn enc(&self, b: &[u8]) -> Vec<u8> { self.run(b, false) }
    fn dec(&self, b: &[u8]) -> Vec<u8> { self.run(b, true) }
}

// ---------------------------------------------------------------- toy cipher
/// An invertible keyed map for any block size, used where a property quantifies
/// over user-supplied ciphers. Not secure, but every output byte depends on every input byte.
#[derive(Clone)]
pub struct Toy { pub bs: usize, pub key: u64 }
impl Toy {
    fn k(&self, i: usize) -> u8 { (self.key.rotate_left((i * 7 % 64) as u32) ^ (i as u64).wrapping_mul(0x9d)) as u8 }
}
impl RefCipher for Toy {
    fn bs(&self) -> usize { self.bs }
    fn enc(&self, b: &[u8]) -> Vec<u8> {
        let n = self.bs;
        let mut v = b.to_vec();
        for round in 0..2 {
            let mut c = 0x5au8.wrapping_add(round);
            for i in 0..n { v[i] = v[i].wrapping_add(self.k(i)).rotate_left(3) ^ c; c = v[i].wrapping_mul(5).wrapping_add(c); }
            let mut c = 0xa7u8;
            for i in (0..n).rev() { v[i] = v[i].wrapping_add(c).rotate_left(1); c = v[i].wrapping_mul(3) ^ c; }
        }
        v
    }
    fn dec(&self, b: &[u8]) -> Vec<u8> {
        let n = self.bs;
        let mut v = b.to_vec();
        for round in (0..2).rev() {
            let mut c = 0xa7u8;
            for i in (0..n).rev() { let o = v[i]; v[i] = v[i].rotate_right(1).wrapping_sub(c); c = o.wrapping_mul(3) ^ c; }
            let mut c = 0x5au8.wrapping_add(round);
            for i in 0..n { let o = v[i]; v[i] = (v[i] ^ c).rotate_right(3).wrapping_sub(self.k(i)); c = o.wrapping_mul(5).wrapping_add(c); }
        }
        v
    }
}
