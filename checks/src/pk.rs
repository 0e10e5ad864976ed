//! Public-key helpers: scripted random sources, number conversions and cached RSA keys.
use crate::*;
use rcrypto::rsa::{PrivateKey, PublicKey};
use rmath::bigint::{BigInt, Nat};
use rmath::rand::{Iter, IterSource, RandErrKind, RandError, Seed, Source};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub struct RngState { pub script: Vec<u32>, pub pos: usize, pub tail: Sm64, pub fail: Option<(usize, usize)>, pub failed: usize, pub log: Option<Vec<u32>> }

/// A random source that first replays a script, then continues with a pseudo-random tail, and
/// fails on the calls in the given range. Clones share the state, so the harness can look on.
#[derive(Clone)]
pub struct Rnd(pub Rc<RefCell<RngState>>);
impl Rnd {
    pub fn new(script: Vec<u32>, seed: u64) -> Rnd {
        Rnd(Rc::new(RefCell::new(RngState { script, pos: 0, tail: Sm64(seed), fail: None, failed: 0, log: None })))
    }
    pub fn seeded(seed: u64) -> Rnd { Rnd::new(vec![], seed) }
    /// calls from..from+n (counted from zero) return an error
    pub fn failing(script: Vec<u32>, seed: u64, from: usize, n: usize) -> Rnd {
        let r = Rnd::new(script, seed);
        r.0.borrow_mut().fail = Some((from, n));
        r
    }
    pub fn record(&self) { self.0.borrow_mut().log = Some(vec![]); }
    pub fn taken(&self) -> Vec<u32> { let mut s = self.0.borrow_mut(); match s.log.as_mut() { Some(l) => std::mem::take(l), None => vec![] } }
    pub fn calls(&self) -> usize { self.0.borrow().pos }
    pub fn failed(&self) -> usize { self.0.borrow().failed }
    pub fn set_script(&self, w: Vec<u32>) { let mut s = self.0.borrow_mut(); s.script = w; s.pos = 0; s.fail = None; }
    pub fn set_fail(&self, f: Option<(usize, usize)>) { let mut s = self.0.borrow_mut(); s.script.clear(); s.pos = 0; s.failed = 0; s.fail = f; }
}
impl Source<u32> for Rnd {
    fn gen(&mut self) -> Result<u32, RandError> {
        burn();
        let mut s = self.0.borrow_mut();
        let i = s.pos;
        s.pos += 1;
        if let Some((a, n)) = s.fail {
            if i >= a && i - a < n { s.failed += 1; return Err(RandError::new(RandErrKind::InnerErr, "scripted failure")); }
        }
        let w = if i < s.script.len() { s.script[i] } else { s.tail.next() as u32 };
        if let Some(l) = s.log.as_mut() { l.push(w); }
        Ok(w)
    }
    fn reset<Sd: Seed<u32>>(&mut self, _sd: &Sd) -> Result<(), RandError> { Ok(()) }
}
impl IterSource<u32> for Rnd {
    fn iter_mut(&mut self) -> Iter<'_, Self, u32> { Iter::new(self) }
}

pub fn big(x: &Bn) -> BigInt { let b = x.to_be(); BigInt::from_be_bytes(if b.is_empty() { &[0] } else { &b }) }
pub fn nat(x: &Bn) -> Nat { let b = x.to_be(); Nat::from_be_bytes(if b.is_empty() { &[0] } else { &b }) }
pub fn nan() -> BigInt { BigInt::from_be_bytes(&[]) }
pub fn neg(x: &Bn) -> BigInt { big(&Bn::zero()) - big(x) }
/// None for NaN and negative numbers
pub fn bn(x: &BigInt) -> Option<Bn> {
    if x.is_nan() || x.signnum() == Some(-1) { return None; }
    Some(Bn::from_be(&x.to_be_bytes()))
}
pub fn show(x: &BigInt) -> String { if x.is_nan() { s("NaN") } else { format!("{:#x}", x) } }
/// 32-bit words, least significant first, as the library draws them
pub fn words(x: &Bn, n: usize) -> Vec<u32> {
    let b = x.to_be_len(n * 4);
    b.rchunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect()
}

fn quoted(t: &str) -> Vec<String> { t.split('"').skip(1).step_by(2).map(|x| x.to_string()).collect() }
fn hexn(t: &str) -> Bn { Bn::from_hex(t.trim_start_matches("0x")) }
/// the decimal or 0x numbers in the printed form of a key, in order
pub fn printed(t: &str) -> Vec<Bn> { quoted(t).iter().map(|x| if x.starts_with("0x") { hexn(x) } else { Bn::from_dec(x) }).collect() }

/// a library RSA key with its numbers
pub struct Key { pub key: PrivateKey, pub n: Bn, pub e: Bn, pub d: Bn, pub primes: Vec<Bn> }
impl Key {
    pub fn new(key: PrivateKey) -> Result<Key, String> {
        let v = printed(&format!("{}", key));
        ensure!(v.len() == 3, "printed key has {} numbers", v.len());
        let (d, n, e) = (v[0].clone(), v[1].clone(), v[2].clone());
        let primes = match refimpl::rsa::factor(&n, &e, &d, &mut Sm64(7)) { Some(p) => p, None => fail!("the exponents {} {} do not belong to the modulus {}", e.to_hex(), d.to_hex(), n.to_hex()) };
        Ok(Key { key, n, e, d, primes })
    }
    pub fn public(&self) -> Result<PublicKey, String> { Ok(must!(PublicKey::from_be_bytes(&self.n.to_be(), &self.e.to_be()), "PublicKey::from_be_bytes")) }
    pub fn k(&self) -> usize { (self.n.bits() + 7) / 8 }
    pub fn enc(&self, m: &Bn) -> Bn { m.modpow(&self.e, &self.n) }
    /// c^d mod n through the primes
    pub fn dec(&self, c: &Bn) -> Bn {
        let one = Bn::one();
        let mut m = Bn::zero();
        let mut r = one.clone();
        for p in &self.primes {
            let mi = c.rem(p).modpow(&self.d.rem(&p.sub(&one)), p);
            let h = mi.submod(&m.rem(p), p).mulmod(&r.rem(p).modinv(p).unwrap(), p);
            m = m.add(&r.mul(&h));
            r = r.mul(p);
        }
        m
    }
}

thread_local! { static KEYS: RefCell<HashMap<(usize, usize, u64), Rc<Key>>> = RefCell::new(HashMap::new()); }
/// the key made by the library from the given size, prime count and seed; made once per thread
pub fn key(bits: usize, primes: usize, seed: u64) -> Result<Rc<Key>, String> {
    if let Some(k) = KEYS.with(|m| m.borrow().get(&(bits, primes, seed)).cloned()) { return Ok(k); }
    let mut rng = Rnd::seeded(seed ^ ((bits as u64) << 32) ^ ((primes as u64) << 56));
    let k = must!(PrivateKey::generate_multi_prime_key(primes, bits, 8, &mut rng), "generate_multi_prime_key({}, {})", primes, bits);
    let k = Rc::new(Key::new(k)?);
    KEYS.with(|m| m.borrow_mut().insert((bits, primes, seed), k.clone()));
    Ok(k)
}
