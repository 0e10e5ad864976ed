//! Reference Keccak-p[b,nr], sponge with pad10*1, SHA-3 and SHAKE; bit strings are Vec<bool> in FIPS 202 order.

pub type Bits = Vec<bool>;

pub fn bits_of(b: &[u8], n: usize) -> Bits { (0..n).map(|i| (b[i / 8] >> (i % 8)) & 1 == 1).collect() }
pub fn bytes_of(b: &[bool]) -> Vec<u8> {
    let mut v = vec![0u8; (b.len() + 7) / 8];
    for (i, &x) in b.iter().enumerate() { if x { v[i / 8] |= 1 << (i % 8); } }
    v
}

fn rc_bit(t: i64) -> bool {
    let t = t.rem_euclid(255);
    // R = 10000000, R[0] first
    let mut r: u16 = 1; // bit i = R[i]
    for _ in 0..t {
        r <<= 1; // R = 0 || R, R[8] may be set
        if r & 0x100 != 0 { r ^= 0x100 | 0b0111_0001; } // R[0],R[4],R[5],R[6] ^= R[8]
    }
    r & 1 == 1
}

fn rotl(x: u64, n: u32, w: u32) -> u64 {
    let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    let n = n % w;
    if n == 0 { x & m } else { ((x << n) | ((x & m) >> (w - n))) & m }
}

fn rho_offsets() -> &'static [[u32; 5]; 5] {
    static S: std::sync::OnceLock<[[u32; 5]; 5]> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut o = [[0u32; 5]; 5];
        let (mut x, mut y) = (1usize, 0usize);
        for t in 0..24u32 {
            o[x][y] = (t + 1) * (t + 2) / 2;
            let ny = (2 * x + 3 * y) % 5;
            x = y; y = ny;
        }
        o
    })
}
fn rc_table() -> &'static [bool; 255] {
    static S: std::sync::OnceLock<[bool; 255]> = std::sync::OnceLock::new();
    S.get_or_init(|| { let mut t = [false; 255]; for i in 0..255 { t[i] = rc_bit(i as i64); } t })
}

/// a[x][y] lanes of width w
pub fn keccak_p(a: &mut [[u64; 5]; 5], w: u32, nr: u32) {
    let l = w.trailing_zeros() as i64;
    let off = rho_offsets();
    let rct = rc_table();
    let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    for ir in (12 + 2 * l - nr as i64)..(12 + 2 * l) {
        let mut c = [0u64; 5];
        for x in 0..5 { for y in 0..5 { c[x] ^= a[x][y]; } }
        let mut b = [[0u64; 5]; 5];
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ rotl(c[(x + 1) % 5], 1, w);
            for y in 0..5 { b[y][(2 * x + 3 * y) % 5] = rotl(a[x][y] ^ d, off[x][y], w); }
        }
        for x in 0..5 { for y in 0..5 { a[x][y] = (b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y])) & m; } }
        let mut rc = 0u64;
        for j in 0..=l { if rct[(j + 7 * ir).rem_euclid(255) as usize] { rc |= 1 << ((1u64 << j) - 1); } }
        a[0][0] ^= rc;
    }
}

pub fn permute_bits(s: &[bool], b: usize, nr: u32) -> Bits {
    let w = b / 25;
    let mut a = [[0u64; 5]; 5];
    for i in 0..b { if s[i] { let lane = i / w; a[lane % 5][lane / 5] |= 1 << (i % w); } }
    keccak_p(&mut a, w as u32, nr);
    (0..b).map(|i| { let lane = i / w; (a[lane % 5][lane / 5] >> (i % w)) & 1 == 1 }).collect()
}

pub fn sponge(msg: &[bool], b: usize, nr: u32, rate: usize, out: usize) -> Bits {
    let mut p = msg.to_vec();
    p.push(true);
    while (p.len() + 1) % rate != 0 { p.push(false); }
    p.push(true);
    let mut s = vec![false; b];
    for blk in p.chunks(rate) {
        for (i, &x) in blk.iter().enumerate() { s[i] ^= x; }
        s = permute_bits(&s, b, nr);
    }
    let mut z = vec![];
    loop {
        z.extend_from_slice(&s[..rate]);
        if z.len() >= out { z.truncate(out); return z; }
        s = permute_bits(&s, b, nr);
    }
}

/// Keccak[c] with a suffix given as bits
pub fn keccak_c(msg: &[bool], suffix: &[bool], c: usize, out: usize) -> Vec<u8> {
    let mut m = msg.to_vec();
    m.extend_from_slice(suffix);
    bytes_of(&sponge(&m, 1600, 24, 1600 - c, out))
}
pub fn sha3(msg: &[bool], bits: usize) -> Vec<u8> { keccak_c(msg, &[false, true], 2 * bits, bits) }
pub fn shake(msg: &[bool], sec: usize, raw: bool, out: usize) -> Vec<u8> {
    keccak_c(msg, if raw { &[true, true] } else { &[true, true, true, true] }, 2 * sec, out)
}
pub fn sha3_bytes(msg: &[u8], bits: usize) -> Vec<u8> { sha3(&bits_of(msg, msg.len() * 8), bits) }
pub fn shake_bytes(msg: &[u8], sec: usize, raw: bool, out: usize) -> Vec<u8> { shake(&bits_of(msg, msg.len() * 8), sec, raw, out) }
