//! C11: RSAES-OAEP and RSAES-PKCS1-v1_5 against an independent RFC 8017 implementation.
use checks::pk::*;
use checks::*;
use rcrypto::rsa::{KeyPair, PublicKey, OAEP, PKCS1};
use rcrypto::{sha, Cipher, Digest, MD5};
use refimpl::rsa as rr;

/// where a ciphertext comes from
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ct {
    /// made by the reference from a message of this share of the maximum length
    Good(Blob, Blob, bool),
    /// the same with one bit of the ciphertext flipped
    Flip(Blob, Blob, u32),
    /// the same ciphertext plus the modulus, if that fits
    PlusN(Blob, Blob),
    /// the same ciphertext with bytes put in front or taken away
    Resize(Blob, Blob, i8),
    /// a data block with defects (see deform)
    Bad(Blob, Blob, Vec<(u8, u32)>),
    /// a block of the given pattern below the modulus
    Em(Num),
    /// any ciphertext integer
    C(Num),
    /// any bytes
    Bytes(Blob),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op { Enc(Blob), TooLong(Blob, u8), Dec(Ct), Label(Blob) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct KeySpec { extra: usize, primes: usize, seed: u64 }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { hash: Hash, family: bool, ks: KeySpec, label: Blob, ops: Vec<Op>, rng: u64, script: Vec<u32>, blind: bool, check: bool, public: bool, dirty: Blob }

/// one scheme with its object, for the shared driver
trait Scheme {
    fn enc(&self, dst: &mut Vec<u8>, m: &[u8]) -> Result<(), rcrypto::CryptoError>;
    fn dec(&self, dst: &mut Vec<u8>, c: &[u8]) -> Result<(), rcrypto::CryptoError>;
    fn label(&mut self, l: &[u8]);
    fn max(&self) -> usize;
    fn k(&self) -> usize;
}
impl<H: Digest> Scheme for OAEP<H, Rnd> {
    fn enc(&self, dst: &mut Vec<u8>, m: &[u8]) -> Result<(), rcrypto::CryptoError> { self.encrypt(dst, m) }
    fn dec(&self, dst: &mut Vec<u8>, c: &[u8]) -> Result<(), rcrypto::CryptoError> { self.decrypt(dst, c) }
    fn label(&mut self, l: &[u8]) { self.set_label(l.to_vec()) }
    fn max(&self) -> usize { self.max_message_len() }
    fn k(&self) -> usize { self.modulus_len() }
}
impl<H: Digest + std::any::Any> Scheme for PKCS1<H, Rnd> {
    fn enc(&self, dst: &mut Vec<u8>, m: &[u8]) -> Result<(), rcrypto::CryptoError> { self.encrypt(dst, m) }
    fn dec(&self, dst: &mut Vec<u8>, c: &[u8]) -> Result<(), rcrypto::CryptoError> { self.decrypt(dst, c) }
    fn label(&mut self, _l: &[u8]) {}
    fn max(&self) -> usize { self.encrypt_max_message_len() }
    fn k(&self) -> usize { self.modulus_len() }
}

/// the reference side of a scheme
trait Model {
    fn max(&self, k: usize) -> usize;
    fn block(&self, k: usize, m: &[u8], seed: &Blob) -> Vec<u8>;
    fn bad(&self, k: usize, m: &[u8], seed: &Blob, how: &[(u8, u32)], l: &mut Vec<String>) -> Vec<u8>;
    fn decode(&self, k: usize, em: &[u8]) -> Option<Vec<u8>>;
    fn label(&mut self, l: &[u8]);
}
struct MOaep { hash: Hash, label: Vec<u8> }
impl MOaep { fn h(&self) -> impl Fn(&[u8]) -> Vec<u8> { let h = self.hash; move |m: &[u8]| h.reference(m) } }
impl Model for MOaep {
    fn max(&self, k: usize) -> usize { k - 2 * self.hash.bytes() - 2 }
    fn block(&self, k: usize, m: &[u8], seed: &Blob) -> Vec<u8> {
        let hl = self.hash.bytes();
        rr::oaep_encode(&self.h(), hl, k, &self.label, m, &Blob { len: hl, pat: seed.pat.clone() }.bytes()).unwrap()
    }
    fn bad(&self, k: usize, m: &[u8], seed: &Blob, how: &[(u8, u32)], l: &mut Vec<String>) -> Vec<u8> {
        let hl = self.hash.bytes();
        let mut db = self.hash.reference(&self.label);
        db.resize(k - hl - 1 - m.len() - 1, 0);
        let sep = db.len();
        db.push(1);
        db.extend_from_slice(m);
        let mut first = 0u8;
        for (kind, x) in how {
            let x = *x as usize;
            match kind % 7 {
                0 => { first = 1 + (x % 255) as u8; l.push(s("first byte not zero")); }
                1 => { db[x % hl] ^= 1 << (x / hl % 8); l.push(s("label hash altered")); }
                2 => { for b in db[sep..].iter_mut() { *b = 0; } l.push(s("no separator")); }
                3 => { db[sep] = 2 + (x % 254) as u8; l.push(s("wrong separator")); }
                4 => if sep > hl { let i = hl + x % (sep - hl); db[i] = 1 + (x / 7 % 255) as u8; l.push(s("padding altered")); },
                5 => { let i = x % db.len(); db[i] = (x / 11) as u8; l.push(s("data block altered")); }
                _ => { db[..hl].copy_from_slice(&self.hash.reference(&x.to_be_bytes())); l.push(s("other label")); }
            }
        }
        rr::oaep_block(&self.h(), first, &Blob { len: hl, pat: seed.pat.clone() }.bytes(), &db)
    }
    fn decode(&self, k: usize, em: &[u8]) -> Option<Vec<u8>> { rr::oaep_decode(&self.h(), self.hash.bytes(), k, &self.label, em) }
    fn label(&mut self, l: &[u8]) { self.label = l.to_vec(); }
}
struct MPkcs1;
impl MPkcs1 {
    fn with(k: usize, m: &[u8], seed: &Blob) -> Vec<u8> {
        let mut ps = Blob { len: k - 3 - m.len(), pat: seed.pat.clone() }.bytes();
        for x in ps.iter_mut() { if *x == 0 { *x = 0x5a; } }
        let mut em = vec![0, 2];
        em.extend(ps);
        em.push(0);
        em.extend_from_slice(m);
        em
    }
}
impl Model for MPkcs1 {
    fn max(&self, k: usize) -> usize { k - 11 }
    fn block(&self, k: usize, m: &[u8], seed: &Blob) -> Vec<u8> { Self::with(k, m, seed) }
    fn bad(&self, k: usize, m: &[u8], seed: &Blob, how: &[(u8, u32)], l: &mut Vec<String>) -> Vec<u8> {
        let mut em = Self::with(k, m, seed);
        let z = k - 1 - m.len();
        for (kind, x) in how {
            let x = *x as usize;
            match kind % 6 {
                0 => { em[0] = 1 + (x % 255) as u8; l.push(s("first byte not zero")); }
                1 => { em[1] = [0, 1, 3, 0xff, (x / 4) as u8][x % 5]; l.push(s("block type altered")); }
                2 => { for b in em[z..].iter_mut() { if *b == 0 { *b = 1; } } l.push(s("no separator")); }
                3 => { em[2 + x % 8] = 0; l.push(s("padding too short")); }
                4 => { em[10.min(k - 1)] = 0; l.push(s("padding of eight bytes")); }
                _ => { let i = x % k; em[i] = (x / 13) as u8; l.push(s("block altered")); }
            }
        }
        em
    }
    fn decode(&self, k: usize, em: &[u8]) -> Option<Vec<u8>> { rr::pkcs1_decode(k, em) }
    fn label(&mut self, _l: &[u8]) {}
}

fn clip(b: &Blob, max: usize) -> Vec<u8> { let n = if max == 0 { 0 } else { b.len % (max + 1) }; Blob { len: n, pat: b.pat.clone() }.bytes() }

fn drive(o: &mut dyn Scheme, md: &mut dyn Model, key: &Key, c: &Case, l: &mut Vec<String>) -> Result<(), String> {
    let k = key.k();
    let max = md.max(k);
    ensure!(o.max() == max, "maximum message length {} instead of {}", o.max(), max);
    ensure!(o.k() == k, "modulus length {} instead of {}", o.k(), k);
    if max == 0 { l.push(s("room for the empty message only")); }
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            Op::Label(b) => { let b = b.bytes(); o.label(&b); md.label(&b); }
            Op::Enc(b) => {
                // the maximum itself is asked for often
                let m = if b.len % 5 == 0 { Blob { len: max, pat: b.pat.clone() }.bytes() } else { clip(b, max) };
                if m.len() == max { l.push(s("longest message")); }
                if m.is_empty() { l.push(s("empty message")); }
                let mut out = c.dirty.bytes();
                must!(o.enc(&mut out, &m), "op {}: encryption of {} bytes of at most {}", i, m.len(), max);
                ensure!(out.len() == k, "op {}: ciphertext of {} bytes for {} bytes, modulus {} bytes", i, out.len(), m.len(), k);
                let ci = Bn::from_be(&out);
                ensure!(ci < key.n, "op {}: ciphertext above the modulus", i);
                let em = key.dec(&ci).to_be_len(k);
                match md.decode(k, &em) {
                    Some(d) => eq(&format!("op {}: reference decryption of {} bytes", i, m.len()), &d, &m)?,
                    None => fail!("op {}: ciphertext of {} bytes does not decode: {}", i, m.len(), hex(&em)),
                }
                if !c.public {
                    let mut back = vec![1, 2, 3];
                    must!(o.dec(&mut back, &out), "op {}: decryption of an own ciphertext", i);
                    eq(&format!("op {}: round trip", i), &back, &m)?;
                }
            }
            Op::TooLong(b, n) => {
                let m = Blob { len: max + 1 + *n as usize % 40, pat: b.pat.clone() }.bytes();
                let mut out = vec![];
                ensure!(o.enc(&mut out, &m).is_err(), "op {}: {} bytes encrypted where {} is the limit", i, m.len(), max);
                l.push(s("too long"));
            }
            Op::Dec(ct) => {
                let mut below = |em: Vec<u8>| { let x = Bn::from_be(&em); if x < key.n { key.enc(&x) } else { l.push(s("block above the modulus")); key.enc(&x.rem(&key.n)) } };
                let bytes = match ct {
                    Ct::Good(m, seed, full) => { let m = if *full { Blob { len: max, pat: m.pat.clone() }.bytes() } else { clip(m, max) }; let r = below(md.block(k, &m, seed)).to_be_len(k); l.push(s("made by the reference")); r }
                    Ct::Flip(m, seed, x) => { let mut v = below(md.block(k, &clip(m, max), seed)).to_be_len(k); let j = *x as usize % (8 * k); v[j / 8] ^= 1 << (j % 8); l.push(s("bit flipped")); v }
                    Ct::PlusN(m, seed) => {
                        let mut v = below(md.block(k, &clip(m, max), seed));
                        // find a fitting one among a few seeds
                        for j in 0..20u64 {
                            if v.add(&key.n).bits() <= 8 * k { break; }
                            v = below(md.block(k, &clip(m, max), &Blob { len: 0, pat: Pat::Rand(j) }));
                        }
                        let w = v.add(&key.n);
                        if w.bits() <= 8 * k { l.push(s("ciphertext plus modulus")); w.to_be_len(k) } else { v.to_be_len(k) }
                    }
                    Ct::Resize(m, seed, by) => {
                        let mut x = below(md.block(k, &clip(m, max), seed));
                        if *by < 0 { for j in 0..60u64 { if x.bits() <= 8 * (k - 1) { break; } x = below(md.block(k, &clip(m, max), &Blob { len: 0, pat: Pat::Rand(j) })); } }
                        let mut v = x.to_be_len(k);
                        let by = if *by == 0 { 1 } else { *by };
                        if by > 0 { let mut w = vec![0; by as usize]; w.append(&mut v); v = w; l.push(s("zeros in front")); }
                        else { if v[0] == 0 { l.push(s("leading zero dropped")); } v.drain(..((-(by as i32)) as usize).min(k)); l.push(s("shorter")); }
                        v
                    }
                    Ct::Bad(m, seed, how) => { let e = md.bad(k, &clip(m, max), seed, how, l); let x = Bn::from_be(&e); if x < key.n { key.enc(&x).to_be_len(k) } else { l.push(s("block above the modulus")); key.enc(&x.rem(&key.n)).to_be_len(k) } }
                    Ct::Em(x) => { let x = x.get(&key.n).rem(&key.n); key.enc(&x).to_be_len(k) }
                    Ct::C(x) => { let mut x = x.get(&key.n); if x.bits() > 8 * k { x = x.rem(&Bn::pow2(8 * k)); } if x >= key.n { l.push(s("ciphertext above the modulus")); } x.to_be_len(k) }
                    Ct::Bytes(b) => b.bytes(),
                };
                let x = Bn::from_be(&bytes);
                let want = if bytes.len() == k && x < key.n && !c.public { md.decode(k, &key.dec(&x).to_be_len(k)) } else { None };
                let mut out = c.dirty.bytes();
                match (o.dec(&mut out, &bytes), want) {
                    (Ok(()), Some(w)) => { eq(&format!("op {}: decryption", i), &out, &w)?; l.push(s("accepted")); }
                    (Err(_), None) => l.push(s("rejected")),
                    (Err(e), Some(_)) => fail!("op {}: valid ciphertext refused: {:?}", i, e),
                    (Ok(()), None) => fail!("op {}: invalid ciphertext of {} bytes decrypted to {} bytes", i, bytes.len(), out.len()),
                }
            }
        }
    }
    Ok(())
}

fn done(mut l: Vec<String>, c: &Case) -> Res {
    if c.public { l.push(s("public key only")); }
    if c.blind { l.push(s("blinded")); }
    l.sort();
    l.dedup();
    okls(!c.ops.is_empty(), l)
}

fn oaep(c: &Case) -> Res {
    let hl = c.hash.bytes();
    let bits = 8 * (2 * hl + 2) - 7 + c.ks.extra;
    let key = key(bits, c.ks.primes.min(bits / 20).max(2), c.ks.seed)?;
    let mut h = BoxD(c.hash.make(c.family));
    h.write(&c.dirty.bytes());
    let kp = if c.public { KeyPair::from(key.public()?) } else { KeyPair::from(key.key.clone()) };
    let rng = Rnd::new(c.script.clone(), c.rng);
    let r = if c.check { OAEP::new(h, rng, kp, c.label.bytes(), c.blind) } else { OAEP::new_uncheck(h, rng, kp, c.label.bytes(), c.blind) };
    let mut o = must!(r, "OAEP over {:?} with {} bits", c.hash, bits);
    ensure!(o.digest_len() == hl, "digest_len {}", o.digest_len());
    let mut md = MOaep { hash: c.hash, label: c.label.bytes() };
    let mut l = vec![c.hash.name()];
    drive(&mut o, &mut md, &key, c, &mut l)?;
    done(l, c)
}

fn pkcs1(c: &Case) -> Res {
    let bits = 81 + c.ks.extra;
    let key = key(bits, c.ks.primes.min(bits / 20).max(2), c.ks.seed)?;
    let kp = if c.public { KeyPair::from(key.public()?) } else { KeyPair::from(key.key.clone()) };
    let rng = Rnd::new(c.script.clone(), c.rng);
    macro_rules! mk { ($h:expr) => {{ let mut h = $h; h.write(&c.dirty.bytes()); let r = if c.check { PKCS1::new(h, rng, kp, c.blind) } else { PKCS1::new_uncheck(h, rng, kp, c.blind) }; Box::new(must!(r, "PKCS1 with {} bits", bits)) }}; }
    let mut o: Box<dyn Scheme> = match c.hash {
        Hash::Md5 => mk!(MD5::new()),
        Hash::Sha1 => mk!(sha::SHA1::new()),
        Hash::Sha224 => mk!(sha::SHA224::new()),
        Hash::Sha256 => mk!(sha::SHA256::new()),
        Hash::Sha384 => mk!(sha::SHA384::new()),
        _ => mk!(sha::SHA512::new()),
    };
    let mut l = vec![];
    drive(o.as_mut(), &mut MPkcs1, &key, c, &mut l)?;
    done(l, c)
}

/// keys that are too small or not acceptable
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Small { hash: Hash, k: usize, e: Num, n: Blob, public: bool, seed: u64 }
fn refused(c: &Small) -> Res {
    // constructors on public keys of any length and exponent
    let k = c.k.max(1);
    let mut nb = Blob { len: k, pat: c.n.pat.clone() }.bytes();
    nb[0] |= 1;
    nb[k - 1] |= 1;
    let n = Bn::from_be(&nb);
    let e = c.e.get(&n).rem(&n);
    if n <= Bn::from_u64(3) || e < Bn::from_u64(3) { return ok(false); }
    let kp = || PublicKey::from_be_bytes(&n.to_be(), &e.to_be()).map(KeyPair::from);
    let hl = c.hash.bytes();
    let fits = k >= 2 * hl + 2;
    let sane = e < Bn::pow2(31);
    let h = || BoxD(c.hash.make(false));
    let mut l = vec![];
    let a = OAEP::new_uncheck(h(), Rnd::seeded(1), must!(kp(), "public key"), vec![], false);
    ensure!(a.is_ok() == fits, "OAEP::new_uncheck with {} bytes and a hash of {} bytes: {}", k, hl, a.is_ok());
    if a.is_err() { l.push(s("modulus too small")); }
    let b = OAEP::new(h(), Rnd::seeded(1), must!(kp(), "public key"), vec![], false);
    ensure!(b.is_ok() == (fits && sane), "OAEP::new with {} bytes, a hash of {} bytes and e={}: {}", k, hl, e.to_hex(), b.is_ok());
    let p = PKCS1::new(sha::SHA1::new(), Rnd::seeded(1), must!(kp(), "public key"), false);
    ensure!(p.is_ok() == (k >= 11 && sane), "PKCS1::new with {} bytes and e={}: {}", k, e.to_hex(), p.is_ok());
    let q = PKCS1::new_uncheck(sha::SHA1::new(), Rnd::seeded(1), must!(kp(), "public key"), false);
    ensure!(q.is_ok() == (k >= 11), "PKCS1::new_uncheck with {} bytes: {}", k, q.is_ok());
    if let Ok(p) = q {
        let mut out = vec![];
        let r = p.encrypt(&mut out, &vec![7; k - 11]);
        ensure!(r.is_ok() == sane, "PKCS1 encryption with e={}: {}", e.to_hex(), r.is_ok());
        ensure!(p.decrypt(&mut out, &vec![0; k]).is_err(), "decryption with a public key");
    }
    if let Ok(a) = a {
        let mut out = vec![];
        let r = a.encrypt(&mut out, &vec![7; k - 2 * hl - 2]);
        ensure!(r.is_ok() == sane, "OAEP encryption with e={}: {}", e.to_hex(), r.is_ok());
        ensure!(a.decrypt(&mut out, &vec![0; k]).is_err(), "decryption with a public key");
    }
    if !sane { l.push(s("exponent too large")); }
    // the same limits when the key is generated
    let bits = 8 * (2 * hl + 2) - 20 + c.seed as usize % 32;
    if bits <= 200 {
        let g = OAEP::auto_generate_key(bits, 4, h(), Rnd::seeded(c.seed), vec![], false);
        let k = (bits + 7) / 8;
        if bits >= 40 { ensure!(g.is_ok() == (k >= 2 * hl + 2), "OAEP::auto_generate_key({}) with a hash of {} bytes: {}", bits, hl, g.is_ok()); l.push(s("generated")); }
    }
    okls(true, l)
}

fn small_hash() -> BoxedStrategy<Hash> {
    (prop_oneof![Just(128usize), Just(256)], 1usize..41, any::<bool>()).prop_map(|(sec, out, raw)| Hash::Shake { sec, out, raw }).boxed()
}
fn byte_hash() -> BoxedStrategy<Hash> {
    (prop_oneof![Just(128usize), Just(256)], 1usize..9, any::<bool>()).prop_map(|(sec, out, raw)| Hash::Shake { sec, out, raw }).boxed()
}
fn ct() -> BoxedStrategy<Ct> {
    let m = || (blob(0..400usize), blob(Just(0usize)));
    prop_oneof![
        5 => (m(), any::<bool>()).prop_map(|((a, b), f)| Ct::Good(a, b, f)),
        2 => (m(), any::<u32>()).prop_map(|((a, b), x)| Ct::Flip(a, b, x)),
        2 => m().prop_map(|(a, b)| Ct::PlusN(a, b)),
        2 => (m(), -4i8..5).prop_map(|((a, b), x)| Ct::Resize(a, b, x)),
        8 => (m(), prop::collection::vec((any::<u8>(), any::<u32>()), 1..3)).prop_map(|((a, b), x)| Ct::Bad(a, b, x)),
        1 => num().prop_map(Ct::Em),
        2 => wide_num().prop_map(Ct::C),
        1 => blob(0..150usize).prop_map(Ct::Bytes),
    ].boxed()
}
fn ops(n: usize) -> BoxedStrategy<Vec<Op>> {
    prop::collection::vec(prop_oneof![3 => blob(0..400usize).prop_map(Op::Enc), 1 => (blob(Just(0usize)), any::<u8>()).prop_map(|(a, b)| Op::TooLong(a, b)), 6 => ct().prop_map(Op::Dec), 1 => blob(prop_oneof![15 => 0..100usize, 1 => 100..9_000usize]).prop_map(Op::Label)], 1..n).boxed()
}
fn case(hash: BoxedStrategy<Hash>, extra: BoxedStrategy<usize>, seeds: u64, primes: usize, n: usize) -> BoxedStrategy<Case> {
    let label = prop_oneof![1 => Just(Blob::lit(b"")), 2 => blob(0..60usize), 1 => blob(prop_oneof![15 => lens(64, 300), 1 => 300..9_000usize])];
    ((hash, any::<bool>(), (extra, 2..=primes, 0..seeds).prop_map(|(extra, primes, seed)| KeySpec { extra, primes, seed }), label, ops(n)),
     (any::<u64>(), prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(prop_oneof![Just(0u32), Just(u32::MAX), any::<u32>(), (0u32..32).prop_map(|i| 0xff << i), any::<u32>().prop_map(|x| x & 0xff00ff00)], 0..40)], any::<bool>(), any::<bool>(), prop::bool::weighted(0.1), blob(0..20usize)))
        .prop_map(|((hash, family, ks, label, ops), (rng, script, blind, check, public, dirty))| Case { hash, family, ks, label, ops, rng, script, blind, check, public, dirty }).boxed()
}

fn main() {
    let mut r = Run::new("C11");
    r.assume("reference EME-OAEP/EME-PKCS1 follow RFC 8017 (round trip with OpenSSL in tools/validate_refs.py); keys come from the library's own generator (C10)");
    let oaep_labels = ["first byte not zero", "label hash altered", "no separator", "wrong separator", "padding altered", "other label", "bit flipped", "ciphertext plus modulus", "zeros in front", "leading zero dropped", "longest message", "empty message", "too long", "made by the reference", "public key only", "accepted", "rejected"];
    r.sub("oaep_small", 50_000, 1_000_000, "OAEP with keys from 25 bits on (hashes of 1 to 5 bytes), histories of encryptions, decryptions of valid and deformed blocks, label changes; non-trivial: all",
        || case(small_hash(), (0usize..64).boxed(), 3, 3, 8), oaep).require(&oaep_labels, 50).require(&["room for the empty message only"], 50);
    r.sub("oaep", 8_000, 120_000, "OAEP over every hash with fitting keys to 1300 bits; non-trivial: all",
        || case(prop_oneof![md_hash(), sha3_hash()].boxed(), prop_oneof![4 => (0usize..10).boxed(), 2 => (0usize..9).prop_map(|x| 8 * x + 7).boxed(), 1 => (0usize..4).prop_map(|x| x * 37).boxed()].boxed(), 1, 2, 5), oaep).require(&oaep_labels, 10);
    r.sub("long_mask", 500, 12_000, "OAEP with hashes of one byte and keys of 2113 to 2500 bits of ten primes, so that the mask takes more than 256 hash values; non-trivial: all",
        || case(byte_hash(), prop::sample::select(vec![2088usize, 2131, 2300, 2472]).boxed(), 1, 2, 5), |c: &Case| {
            let mut c = c.clone();
            c.ks.primes = 10;
            oaep(&c)
        }).require(&["accepted", "rejected", "longest message", "made by the reference"], 30);
    let p_labels = ["first byte not zero", "block type altered", "no separator", "padding too short", "padding of eight bytes", "bit flipped", "ciphertext plus modulus", "zeros in front", "leading zero dropped", "longest message", "empty message", "too long", "made by the reference", "public key only", "accepted", "rejected"];
    r.sub("pkcs1_small", 120_000, 1_000_000, "PKCS#1 v1.5 with keys from 81 to 144 bits; non-trivial: all",
        || case(pkcs_hash(), (0usize..64).boxed(), 3, 3, 8), pkcs1).require(&p_labels, 50).require(&["room for the empty message only"], 50);
    r.sub("pkcs1", 16_000, 120_000, "PKCS#1 v1.5 with keys to 700 bits; non-trivial: all",
        || case(pkcs_hash(), (0usize..12).prop_map(|x| 80 + 41 * x).boxed(), 1, 3, 6), pkcs1).require(&p_labels, 10);
    r.sub("standard_sizes", 120, 1_500, "1024 and 2048 bit keys, both schemes; non-trivial: all",
        || (any::<bool>(), case(prop_oneof![Just(Hash::Sha1), Just(Hash::Sha256)].boxed(), Just(0usize).boxed(), 1, 2, 4), any::<bool>()), |(o, c, big): &(bool, Case, bool)| {
            let mut c = c.clone();
            let bits = if *big { 2048 } else { 1024 };
            c.ks.extra = if *o { bits + 7 - 8 * (2 * c.hash.bytes() + 2) } else { bits - 81 };
            if *o { oaep(&c) } else { pkcs1(&c) }
        });
    r.sub("refused_keys", 60_000, 600_000, "public keys of 1 to 150 bytes with any exponent: too small for the hash, exponent too large; non-trivial: key accepted by the import",
        || (prop_oneof![md_hash(), small_hash()], prop_oneof![1usize..150, 1usize..30], prop_oneof![3 => num(), 2 => (0u64..1 << 34).prop_map(Num::Small), 1 => (0u64..10).prop_map(|x| Num::Small((1 << 31) - 5 + x))], blob(Just(0usize)), any::<bool>(), any::<u64>())
            .prop_map(|(hash, k, e, n, public, seed)| Small { hash, k, e, n, public, seed }), refused).require(&["modulus too small", "exponent too large", "generated"], 100);
    r.finish();
}
fn pkcs_hash() -> BoxedStrategy<Hash> { prop_oneof![Just(Hash::Md5), Just(Hash::Sha1), Just(Hash::Sha224), Just(Hash::Sha256), Just(Hash::Sha384), Just(Hash::Sha512)].boxed() }
