//! Generators: compactly described byte strings, lengths around boundaries, splits, numbers.
use crate::bn::Bn;
use crate::Sm64;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pat {
    Zero,
    /// every byte the same
    Rep(u8),
    /// counting up from here
    Inc(u8),
    /// a single bit set (position modulo the length)
    Bit(u32),
    /// all ones except a single bit
    NotBit(u32),
    /// pseudo-random from this seed
    Rand(u64),
    /// mostly 00 and ff with a few edge values, from this seed
    Edge(u64),
    /// zero bytes in front, then pseudo-random
    Lead(u8, u64),
    /// pseudo-random, then zero bytes behind
    Trail(u8, u64),
    Lit(Vec<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Blob { pub len: usize, pub pat: Pat }

impl Blob {
    pub fn bytes(&self) -> Vec<u8> {
        let n = self.len;
        match &self.pat {
            Pat::Zero => vec![0; n],
            Pat::Rep(b) => vec![*b; n],
            Pat::Inc(b) => (0..n).map(|i| b.wrapping_add(i as u8)).collect(),
            Pat::Bit(p) => { let mut v = vec![0; n]; if n > 0 { let p = *p as usize % (8 * n); v[p / 8] |= 0x80 >> (p % 8); } v }
            Pat::NotBit(p) => { let mut v = vec![0xff; n]; if n > 0 { let p = *p as usize % (8 * n); v[p / 8] ^= 0x80 >> (p % 8); } v }
            Pat::Rand(s) => Sm64(*s).bytes(n),
            Pat::Edge(s) => {
                let mut r = Sm64(*s);
                let mut v = Vec::with_capacity(n);
                while v.len() < n {
                    let x = r.next();
                    let b = match x & 15 { 0..=4 => 0, 5..=9 => 0xff, 10 => 1, 11 => 0x7f, 12 => 0x80, 13 => 0xfe, _ => (x >> 8) as u8 };
                    let run = match (x >> 16) & 7 { 0..=2 => 1, 3 => 2, 4 => 3, 5 => 4, 6 => 8, _ => 1 + ((x >> 20) & 31) as usize };
                    for _ in 0..run { if v.len() < n { v.push(b); } }
                }
                v
            }
            Pat::Lead(k, s) => { let mut v = Sm64(*s).bytes(n); for b in v.iter_mut().take(*k as usize) { *b = 0; } v }
            Pat::Trail(k, s) => { let mut v = Sm64(*s).bytes(n); for b in v.iter_mut().rev().take(*k as usize) { *b = 0; } v }
            Pat::Lit(l) => { let mut v = l.clone(); v.resize(n, 0); v }
        }
    }
    pub fn lit(v: &[u8]) -> Blob { Blob { len: v.len(), pat: Pat::Lit(v.to_vec()) } }
}

pub fn pat() -> BoxedStrategy<Pat> {
    prop_oneof![
        2 => Just(Pat::Zero),
        4 => any::<u8>().prop_map(Pat::Rep),
        1 => Just(Pat::Rep(0xff)),
        1 => any::<u8>().prop_map(Pat::Inc),
        3 => any::<u32>().prop_map(Pat::Bit),
        2 => any::<u32>().prop_map(Pat::NotBit),
        24 => any::<u64>().prop_map(Pat::Rand),
        8 => any::<u64>().prop_map(Pat::Edge),
        1 => (1u8..9, any::<u64>()).prop_map(|(a, b)| Pat::Lead(a, b)),
        1 => (1u8..9, any::<u64>()).prop_map(|(a, b)| Pat::Trail(a, b)),
    ].boxed()
}

pub fn blob<S: Strategy<Value = usize> + 'static>(len: S) -> BoxedStrategy<Blob> {
    (len, pat()).prop_map(|(len, pat)| Blob { len, pat }).boxed()
}
pub fn blob_n(n: usize) -> BoxedStrategy<Blob> { pat().prop_map(move |pat| Blob { len: n, pat }).boxed() }

/// lengths: dense up to three blocks, the neighbourhood of block multiples, uniform to max
pub fn lens(block: usize, max: usize) -> BoxedStrategy<usize> {
    let kmax = (max / block).max(2);
    prop_oneof![
        5 => 0..=(3 * block).min(max),
        3 => (1..=kmax, 0usize..5).prop_map(move |(k, d)| (k * block + d).saturating_sub(2).min(max)),
        2 => 0..=max,
    ].boxed()
}

/// chunk sizes used in turn to cut a message (zero = empty write); the rest goes in one piece
pub fn cuts(block: usize) -> BoxedStrategy<Vec<usize>> {
    prop_oneof![
        2 => Just(vec![]),
        5 => prop::collection::vec(prop_oneof![2 => 0..=3usize, 4 => 0..=(2 * block + 2), 1 => Just(block), 1 => Just(0usize), 1 => 0..=(6 * block)], 0..8),
        1 => prop::collection::vec(0..=3usize, 0..(2 * block).min(80)),
    ].boxed()
}

pub fn split<'a>(m: &'a [u8], cuts: &[usize]) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let mut p = 0;
    for c in cuts {
        let e = (p + c).min(m.len());
        v.push(&m[p..e]);
        p = e;
    }
    if p < m.len() || v.is_empty() { v.push(&m[p..]); }
    v
}

/// a number relative to a modulus m: small, near the modulus, near powers of two, random
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Num {
    Small(u64),
    /// m - k
    Below(u64),
    /// m + k
    Above(u64),
    /// m/2 + k
    Half(u64),
    /// 2^i + k
    Pow(u32, u64),
    /// 2^i - 1 - k
    PowM(u32, u64),
    /// k*m + j
    Mult(u64, u64),
    /// bytes of an edge/random pattern, reduced modulo m
    Blob(Pat),
    /// bytes, not reduced, this many extra bytes
    Wide(u8, Pat),
}
impl Num {
    pub fn get(&self, m: &Bn) -> Bn {
        let u = Bn::from_u64;
        let sat = |a: &Bn, b: Bn| if *a >= b { a.sub(&b) } else { Bn::zero() };
        match self {
            Num::Small(k) => u(*k),
            Num::Below(k) => sat(m, u(*k)),
            Num::Above(k) => m.add(&u(*k)),
            Num::Half(k) => m.shr(1).add(&u(*k)),
            Num::Pow(i, k) => Bn::pow2(*i as usize % (m.bits() + 2)).add(&u(*k)),
            Num::PowM(i, k) => sat(&Bn::pow2(*i as usize % (m.bits() + 2)), u(*k).add(&Bn::one())),
            Num::Mult(k, j) => m.mul(&u(*k)).add(&u(*j)),
            Num::Blob(p) => Bn::from_be(&Blob { len: (m.bits() + 7) / 8, pat: p.clone() }.bytes()).rem(m),
            Num::Wide(x, p) => Bn::from_be(&Blob { len: (m.bits() + 7) / 8 + *x as usize, pat: p.clone() }.bytes()),
        }
    }
}
/// in range numbers mostly (reduce them when the range matters)
pub fn num() -> BoxedStrategy<Num> {
    prop_oneof![
        2 => (0u64..20).prop_map(Num::Small),
        1 => any::<u64>().prop_map(Num::Small),
        2 => (0u64..20).prop_map(Num::Below),
        1 => (0u64..4).prop_map(Num::Half),
        3 => (0u32..4096, 0u64..3).prop_map(|(a, b)| Num::Pow(a, b)),
        3 => (0u32..4096, 0u64..3).prop_map(|(a, b)| Num::PowM(a, b)),
        16 => pat().prop_map(Num::Blob),
    ].boxed()
}
/// any numbers, also at and above the modulus
pub fn wide_num() -> BoxedStrategy<Num> {
    prop_oneof![
        10 => num(),
        2 => (0u64..20).prop_map(Num::Above),
        2 => (0u64..6, 0u64..6).prop_map(|(a, b)| Num::Mult(a, b)),
        3 => (0u8..9, pat()).prop_map(|(a, b)| Num::Wide(a, b)),
    ].boxed()
}
