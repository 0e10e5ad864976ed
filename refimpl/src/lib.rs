//! Independent reference implementations (written from the published standards)
//! and the generated-input search engine. This crate never touches rcrypto.
pub mod bn;
pub mod block;
pub mod hash;
pub mod keccak;
pub mod zuc;
pub mod mac;
pub mod modes;
pub mod rsa;
pub mod ec;
pub mod dsa;
pub mod engine;
pub mod fuel;
pub mod gen;

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b { s.push_str(&format!("{:02x}", x)); }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|c| !c.is_ascii_whitespace()).collect();
    s.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}

/// splitmix64: the deterministic filler for compactly described data.
#[derive(Clone)]
pub struct Sm64(pub u64);
impl Sm64 {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn fill(&mut self, out: &mut [u8]) {
        for c in out.chunks_mut(8) {
            let v = self.next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; self.fill(&mut v); v }
}
