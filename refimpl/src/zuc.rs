//! Reference ZUC, 128-EEA3 and 128-EIA3.
const D: [u32; 16] = [0x44D7,0x26BC,0x626B,0x135E,0x5789,0x35E2,0x7135,0x09AF,0x4D78,0x2F13,0x6BC4,0x1AF1,0x5E26,0x3C4D,0x789A,0x47AC];
const S0: [u8;256] = [
    0x3e,0x72,0x5b,0x47,0xca,0xe0,0x00,0x33,0x04,0xd1,0x54,0x98,0x09,0xb9,0x6d,0xcb,
    0x7b,0x1b,0xf9,0x32,0xaf,0x9d,0x6a,0xa5,0xb8,0x2d,0xfc,0x1d,0x08,0x53,0x03,0x90,
    0x4d,0x4e,0x84,0x99,0xe4,0xce,0xd9,0x91,0xdd,0xb6,0x85,0x48,0x8b,0x29,0x6e,0xac,
    0xcd,0xc1,0xf8,0x1e,0x73,0x43,0x69,0xc6,0xb5,0xbd,0xfd,0x39,0x63,0x20,0xd4,0x38,
    0x76,0x7d,0xb2,0xa7,0xcf,0xed,0x57,0xc5,0xf3,0x2c,0xbb,0x14,0x21,0x06,0x55,0x9b,
    0xe3,0xef,0x5e,0x31,0x4f,0x7f,0x5a,0xa4,0x0d,0x82,0x51,0x49,0x5f,0xba,0x58,0x1c,
    0x4a,0x16,0xd5,0x17,0xa8,0x92,0x24,0x1f,0x8c,0xff,0xd8,0xae,0x2e,0x01,0xd3,0xad,
    0x3b,0x4b,0xda,0x46,0xeb,0xc9,0xde,0x9a,0x8f,0x87,0xd7,0x3a,0x80,0x6f,0x2f,0xc8,
    0xb1,0xb4,0x37,0xf7,0x0a,0x22,0x13,0x28,0x7c,0xcc,0x3c,0x89,0xc7,0xc3,0x96,0x56,
    0x07,0xbf,0x7e,0xf0,0x0b,0x2b,0x97,0x52,0x35,0x41,0x79,0x61,0xa6,0x4c,0x10,0xfe,
    0xbc,0x26,0x95,0x88,0x8a,0xb0,0xa3,0xfb,0xc0,0x18,0x94,0xf2,0xe1,0xe5,0xe9,0x5d,
    0xd0,0xdc,0x11,0x66,0x64,0x5c,0xec,0x59,0x42,0x75,0x12,0xf5,0x74,0x9c,0xaa,0x23,
    0x0e,0x86,0xab,0xbe,0x2a,0x02,0xe7,0x67,0xe6,0x44,0xa2,0x6c,0xc2,0x93,0x9f,0xf1,
    0xf6,0xfa,0x36,0xd2,0x50,0x68,0x9e,0x62,0x71,0x15,0x3d,0xd6,0x40,0xc4,0xe2,0x0f,
    0x8e,0x83,0x77,0x6b,0x25,0x05,0x3f,0x0c,0x30,0xea,0x70,0xb7,0xa1,0xe8,0xa9,0x65,
    0x8d,0x27,0x1a,0xdb,0x81,0xb3,0xa0,0xf4,0x45,0x7a,0x19,0xdf,0xee,0x78,0x34,0x60,
];
const S1: [u8;256] = [
    0x55,0xc2,0x63,0x71,0x3b,0xc8,0x47,0x86,0x9f,0x3c,0xda,0x5b,0x29,0xaa,0xfd,0x77,
    0x8c,0xc5,0x94,0x0c,0xa6,0x1a,0x13,0x00,0xe3,0xa8,0x16,0x72,0x40,0xf9,0xf8,0x42,
    0x44,0x26,0x68,0x96,0x81,0xd9,0x45,0x3e,0x10,0x76,0xc6,0xa7,0x8b,0x39,0x43,0xe1,
    0x3a,0xb5,0x56,0x2a,0xc0,0x6d,0xb3,0x05,0x22,0x66,0xbf,0xdc,0x0b,0xfa,0x62,0x48,
    0xdd,0x20,0x11,0x06,0x36,0xc9,0xc1,0xcf,0xf6,0x27,0x52,0xbb,0x69,0xf5,0xd4,0x87,
    0x7f,0x84,0x4c,0xd2,0x9c,0x57,0xa4,0xbc,0x4f,0x9a,0xdf,0xfe,0xd6,0x8d,0x7a,0xeb,
    0x2b,0x53,0xd8,0x5c,0xa1,0x14,0x17,0xfb,0x23,0xd5,0x7d,0x30,0x67,0x73,0x08,0x09,
    0xee,0xb7,0x70,0x3f,0x61,0xb2,0x19,0x8e,0x4e,0xe5,0x4b,0x93,0x8f,0x5d,0xdb,0xa9,
    0xad,0xf1,0xae,0x2e,0xcb,0x0d,0xfc,0xf4,0x2d,0x46,0x6e,0x1d,0x97,0xe8,0xd1,0xe9,
    0x4d,0x37,0xa5,0x75,0x5e,0x83,0x9e,0xab,0x82,0x9d,0xb9,0x1c,0xe0,0xcd,0x49,0x89,
    0x01,0xb6,0xbd,0x58,0x24,0xa2,0x5f,0x38,0x78,0x99,0x15,0x90,0x50,0xb8,0x95,0xe4,
    0xd0,0x91,0xc7,0xce,0xed,0x0f,0xb4,0x6f,0xa0,0xcc,0xf0,0x02,0x4a,0x79,0xc3,0xde,
    0xa3,0xef,0xea,0x51,0xe6,0x6b,0x18,0xec,0x1b,0x2c,0x80,0xf7,0x74,0xe7,0xff,0x21,
    0x5a,0x6a,0x54,0x1e,0x41,0x31,0x92,0x35,0xc4,0x33,0x07,0x0a,0xba,0x7e,0x0e,0x34,
    0x88,0xb1,0x98,0x7c,0xf3,0x3d,0x60,0x6c,0x7b,0xca,0xd3,0x1f,0x32,0x65,0x04,0x28,
    0x64,0xbe,0x85,0x9b,0x2f,0x59,0x8a,0xd7,0xb0,0x25,0xac,0xaf,0x12,0x03,0xe2,0xf2,

];
#[derive(Clone)]
pub struct Zuc { s: std::collections::VecDeque<u64>, r1: u32, r2: u32 }

const P31: u64 = (1 << 31) - 1;

impl Zuc {
    pub fn new(k: &[u8], iv: &[u8]) -> Zuc {
        let s = (0..16).map(|i| ((k[i] as u64) << 23) | ((D[i] as u64) << 8) | iv[i] as u64).collect();
        let mut z = Zuc { s, r1: 0, r2: 0 };
        for _ in 0..32 {
            let x = z.br();
            let w = z.f(x[0], x[1], x[2]);
            z.lfsr((w >> 1) as u64);
        }
        let x = z.br();
        z.f(x[0], x[1], x[2]);
        z.lfsr(0);
        z
    }
    /// Changes bytes 0, 4 and 13 of key and IV so that the first cell the register computes is `target` modulo 2^31 - 1.
    pub fn steer(k: &mut [u8], iv: &mut [u8], target: u64) -> bool {
        let cell = |i: usize, k: u64, v: u64| (k << 23) | ((D[i] as u64) << 8) | v;
        let mut a: Vec<(u64, u64)> = (0..1u64 << 16).map(|x| (cell(0, x >> 8, x & 255) * 257 % P31, x)).collect();
        a.sort();
        for _ in 0..20 {
            let s: Vec<u64> = (0..16).map(|i| cell(i, k[i] as u64, iv[i] as u64)).collect();
            // R1 and R2 are zero at the first step, so W is X0
            let u = ((((s[15] >> 15) & 0xffff) << 16) | (s[14] & 0xffff)) >> 1;
            let rest = ((s[15] << 15) + (s[10] << 21) + (s[4] << 20) + u) % P31;
            for y in 0..1u64 << 16 {
                let want = (target + 2 * P31 - rest - (cell(13, y >> 8, y & 255) << 17) % P31) % P31;
                if let Ok(i) = a.binary_search_by(|e| e.0.cmp(&want)) {
                    let x = a[i].1;
                    k[0] = (x >> 8) as u8;
                    iv[0] = x as u8;
                    k[13] = (y >> 8) as u8;
                    iv[13] = y as u8;
                    return true;
                }
            }
            k[4] = k[4].wrapping_add(77);
            iv[4] = iv[4].wrapping_add(29);
        }
        false
    }
    fn lfsr(&mut self, u: u64) {
        let s = &self.s;
        let mut v = ((s[15] << 15) + (s[13] << 17) + (s[10] << 21) + (s[4] << 20) + (s[0] << 8) + s[0] + u) % P31;
        if v == 0 { v = P31; }
        self.s.pop_front();
        self.s.push_back(v);
    }
    fn br(&self) -> [u32; 4] {
        let h = |i: usize| ((self.s[i] >> 15) & 0xffff) as u32;
        let l = |i: usize| (self.s[i] & 0xffff) as u32;
        [(h(15) << 16) | l(14), (l(11) << 16) | h(9), (l(7) << 16) | h(5), (l(2) << 16) | h(0)]
    }
    fn f(&mut self, x0: u32, x1: u32, x2: u32) -> u32 {
        let w = (x0 ^ self.r1).wrapping_add(self.r2);
        let w1 = self.r1.wrapping_add(x1);
        let w2 = self.r2 ^ x2;
        let l1 = |x: u32| x ^ x.rotate_left(2) ^ x.rotate_left(10) ^ x.rotate_left(18) ^ x.rotate_left(24);
        let l2 = |x: u32| x ^ x.rotate_left(8) ^ x.rotate_left(14) ^ x.rotate_left(22) ^ x.rotate_left(30);
        let s = |x: u32| { let b = x.to_be_bytes(); u32::from_be_bytes([S0[b[0] as usize], S1[b[1] as usize], S0[b[2] as usize], S1[b[3] as usize]]) };
        self.r1 = s(l1((w1 << 16) | (w2 >> 16)));
        self.r2 = s(l2((w2 << 16) | (w1 >> 16)));
        w
    }
    pub fn next(&mut self) -> u32 {
        let x = self.br();
        let z = self.f(x[0], x[1], x[2]) ^ x[3];
        self.lfsr(0);
        z
    }
}

/// keystream bytes of 128-EEA3
pub fn eea3_keystream(count: u32, bearer: u8, dir: bool, ck: &[u8], n: usize) -> Vec<u8> {
    let c = count.to_be_bytes();
    let x = ((bearer & 31) << 3) | ((dir as u8) << 2);
    let iv = [c[0], c[1], c[2], c[3], x, 0, 0, 0, c[0], c[1], c[2], c[3], x, 0, 0, 0];
    let mut z = Zuc::new(ck, &iv);
    let mut v = vec![];
    while v.len() < n { v.extend_from_slice(&z.next().to_be_bytes()); }
    v.truncate(n);
    v
}

pub fn eia3(count: u32, bearer: u8, dir: bool, ck: &[u8], msg: &[u8]) -> Vec<u8> { eia3_bits(count, bearer, dir, ck, msg, 8 * msg.len()) }

/// the standard defines the MAC for any number of bits; rcrypto offers whole bytes
pub fn eia3_bits(count: u32, bearer: u8, dir: bool, ck: &[u8], msg: &[u8], len: usize) -> Vec<u8> {
    let c = count.to_be_bytes();
    let x = (bearer & 31) << 3;
    let d = (dir as u8) << 7;
    let iv = [c[0], c[1], c[2], c[3], x, 0, 0, 0, c[0] ^ d, c[1], c[2], c[3], x, 0, d, 0];
    let l = (len + 31) / 32 + 2;
    let mut z = Zuc::new(ck, &iv);
    let w: Vec<u32> = (0..l).map(|_| z.next()).collect();
    let word = |i: usize| -> u32 {
        let (q, r) = (i / 32, i % 32);
        if r == 0 { w[q] } else { (w[q] << r) | (w[q + 1] >> (32 - r)) }
    };
    let mut t = 0u32;
    for i in 0..len { if (msg[i / 8] >> (7 - i % 8)) & 1 == 1 { t ^= word(i); } }
    t ^= word(len);
    t ^= w[l - 1];
    t.to_be_bytes().to_vec()
}
