//! C12: RSASSA-PKCS1-v1_5 and RSASSA-PSS against an independent RFC 8017 implementation.
use checks::pk::*;
use checks::*;
use rcrypto::rsa::{KeyPair, PublicKey, SignatureContent, PKCS1, PSS};
use rcrypto::{sha, sha3, CryptoError, Digest, Signature, MD5, SHA, SHA3, SM3};
use refimpl::rsa as rr;

/// where a signature comes from
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Sg {
    /// by the reference
    Good,
    Flip(u32),
    PlusN,
    Resize(i8),
    /// block with defects
    Bad(Vec<(u8, u32)>),
    /// the negated signature n - s
    Neg,
    Em(Num),
    S(Num),
    Bytes(Blob),
    /// of another key of the same size
    OtherKey,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Sign(Blob),
    /// signature for the first message offered for the second (the same if none)
    Verify(Blob, Option<Blob>, Sg),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { hash: Hash, family: bool, extra: usize, primes: usize, seed: u64, salt: Option<usize>, ops: Vec<Op>, rng: u64, script: Vec<u32>, saltpat: Blob, blind: bool, check: bool, public: bool, dirty: Blob }

trait Model {
    fn block(&self, msg: &[u8], salt: &[u8]) -> Vec<u8>;
    fn bad(&self, msg: &[u8], salt: &[u8], how: &[(u8, u32)], l: &mut Vec<String>) -> Vec<u8>;
    /// em has k bytes
    fn valid(&self, msg: &[u8], em: &[u8]) -> bool;
    fn salt(&self) -> usize { 0 }
}
struct MPss { hash: Hash, embits: usize, salt: usize }
impl MPss {
    fn h(&self) -> impl Fn(&[u8]) -> Vec<u8> { let h = self.hash; move |m: &[u8]| h.reference(m) }
    fn emlen(&self) -> usize { (self.embits + 7) / 8 }
}
impl Model for MPss {
    fn block(&self, msg: &[u8], salt: &[u8]) -> Vec<u8> { rr::pss_encode(&self.h(), self.hash.bytes(), self.embits, &self.hash.reference(msg), salt).unwrap() }
    fn bad(&self, msg: &[u8], salt: &[u8], how: &[(u8, u32)], l: &mut Vec<String>) -> Vec<u8> {
        let hl = self.hash.bytes();
        let emlen = self.emlen();
        let mut salt = salt.to_vec();
        let mut trailer = 0xbc;
        let mut prefix = vec![0u8; 8];
        let mut mh = self.hash.reference(msg);
        let (mut ps, mut sep, mut flip_h, mut top, mut raw) = (None, 1u8, None, None, None);
        for (kind, x) in how {
            let x = *x as usize;
            match kind % 9 {
                0 => { trailer = if x % 3 == 0 { 0xcc } else { 0xbc ^ (1 << (x % 8)) }; l.push(s("trailer altered")); }
                1 => { ps = Some(x); l.push(s("padding altered")); }
                2 => { sep = [0, 2, 3, 0x80, 0x81, (x / 5) as u8][x % 6]; if sep != 1 { l.push(s("separator altered")); } }
                3 => { flip_h = Some(x); l.push(s("hash altered")); }
                4 => { top = Some(x); l.push(s("top bits set")); }
                5 => { prefix[x % 8] = 1 + (x / 8 % 255) as u8; l.push(s("prefix altered")); }
                6 => {
                    // another salt length than agreed
                    let max = emlen - hl - 2;
                    let n = match x % 4 { 0 => salt.len() + 1, 1 => salt.len().wrapping_sub(1), 2 => 0, _ => max };
                    if n <= max && n != salt.len() { salt.resize(n, 0x3c); l.push(s("other salt length")); }
                }
                7 => { raw = Some(x); l.push(s("block altered")); }
                _ => { let i = x % mh.len(); mh[i] ^= 1 << (x / 64 % 8); l.push(s("message hash altered")); }
            }
        }
        let mut m = prefix;
        m.extend_from_slice(&mh);
        m.extend_from_slice(&salt);
        let mut hh = self.hash.reference(&m);
        let mut db = vec![0u8; emlen - salt.len() - hl - 2];
        let z = 8 * emlen - self.embits;
        if let Some(x) = ps { if !db.is_empty() { let i = if x % 2 == 0 { x / 2 % db.len() } else { 0 }; db[i] = 1 << (x / 64 % 8); if i == 0 { db[0] &= (0xff_u16 >> z) as u8; } } }
        db.push(sep);
        db.extend_from_slice(&salt);
        let mut em = rr::pss_block(&self.h(), self.embits, &db, &hh, trailer);
        if let Some(x) = flip_h { hh[x % hl] ^= 1 << (x / 64 % 8); let k = em.len(); em[k - 1 - hl..k - 1].copy_from_slice(&hh); }
        if let Some(x) = top { if z > 0 { em[0] |= 1 << (7 - x % z); } }
        if let Some(x) = raw { let i = x % em.len(); em[i] ^= 1 << (x / 1000 % 8); }
        em
    }
    fn valid(&self, msg: &[u8], em: &[u8]) -> bool {
        let d = em.len() - self.emlen();
        em[..d].iter().all(|&x| x == 0) && rr::pss_verify(&self.h(), self.hash.bytes(), self.embits, &self.hash.reference(msg), self.salt, &em[d..])
    }
    fn salt(&self) -> usize { self.salt }
}
struct MP1 { hash: Hash, k: usize }
impl MP1 { fn prefix(&self) -> Vec<u8> { rr::digest_prefix(&self.hash.name().to_lowercase()) } }
impl Model for MP1 {
    fn block(&self, msg: &[u8], _salt: &[u8]) -> Vec<u8> { rr::pkcs1_sig_block(self.k, &self.prefix(), &self.hash.reference(msg)).unwrap() }
    fn bad(&self, msg: &[u8], _salt: &[u8], how: &[(u8, u32)], l: &mut Vec<String>) -> Vec<u8> {
        let mut em = self.block(msg, &[]);
        let h = self.hash.reference(msg);
        let p = self.prefix();
        let k = self.k;
        let t = k - p.len() - h.len();
        for (kind, x) in how {
            let x = *x as usize;
            match kind % 10 {
                0 => { em[0] = 1 + (x % 255) as u8; l.push(s("first byte not zero")); }
                1 => { em[1] = [0, 2, 3, 0xff, (x / 4) as u8][x % 5]; l.push(s("block type altered")); }
                2 => { let i = 2 + x % (t - 3); em[i] = [0, 0xfe, 0x7f, (x / 600) as u8][x % 4]; l.push(s("padding altered")); }
                3 => { em[t - 1] = 1 + (x % 255) as u8; l.push(s("separator altered")); }
                4 => { let i = t + x % p.len(); em[i] ^= 1 << (x / 64 % 8); l.push(s("hash identifier altered")); }
                5 => { let i = t + p.len() + x % h.len(); em[i] ^= 1 << (x / 64 % 8); l.push(s("hash altered")); }
                6 => {
                    // short padding, identifier and hash moved to the left, rubbish behind them
                    let ps = 8.min(t - 3) + x % (t - 2 - 8.min(t - 3));
                    if ps < t - 3 {
                        let mut v = vec![0, 1];
                        v.resize(2 + ps, 0xff);
                        v.push(0);
                        v.extend_from_slice(&p);
                        v.extend_from_slice(&h);
                        let n = v.len();
                        let mut g = Blob { len: k - n, pat: Pat::Rand(x as u64) }.bytes();
                        if x % 3 == 0 { for b in g.iter_mut() { *b = 0; } }
                        v.extend(g);
                        em = v;
                        l.push(s("rubbish behind the hash"));
                    }
                }
                7 => {
                    // the identifier without its NULL parameter
                    let mut q = p.clone();
                    let at = q.len() - 4;
                    q.drain(at..at + 2);
                    q[1] -= 2;
                    q[3] -= 2;
                    if let Some(b) = rr::pkcs1_sig_block(k, &q, &h) { em = b; l.push(s("identifier without parameter")); }
                }
                8 => {
                    // the identifier of another hash, or none at all
                    let names = ["md5", "sha1", "sha224", "sha256", "sha384", "sha512"];
                    let q = if x % 7 == 6 { vec![] } else { rr::digest_prefix(names[x % 6 % 6]) };
                    if q != p { if let Some(b) = rr::pkcs1_sig_block(k, &q, &h) { em = b; l.push(s("other identifier")); } }
                }
                _ => { let i = x % k; em[i] ^= 1 << (x / 1000 % 8); l.push(s("block altered")); }
            }
        }
        em
    }
    fn valid(&self, msg: &[u8], em: &[u8]) -> bool { em == &self.block(msg, &[])[..] }
}

type Obj = dyn Signature<SignatureContent, Output = ()>;

fn drive(o: &mut Obj, md: &dyn Model, key: &Key, c: &Case, pss: bool, l: &mut Vec<String>) -> Result<(), String> {
    let k = key.k();
    let salt = |i: usize| { let mut b = Blob { len: md.salt(), pat: c.saltpat.pat.clone() }.bytes(); if let Some(x) = b.first_mut() { *x = x.wrapping_add(i as u8); } b };
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            Op::Sign(m) => {
                let m = m.bytes();
                let mut sg = SignatureContent::from(c.dirty.bytes());
                let r = o.sign(&mut sg, &m);
                if c.public { ensure!(r.is_err(), "op {}: signed with a public key", i); l.push(s("public key only")); continue; }
                must!(r, "op {}: signing {} bytes", i, m.len());
                let b = sg.as_slice().to_vec();
                ensure!(b.len() == k, "op {}: signature of {} bytes, modulus {} bytes", i, b.len(), k);
                let x = Bn::from_be(&b);
                ensure!(x < key.n, "op {}: signature above the modulus", i);
                ensure!(md.valid(&m, &key.enc(&x).to_be_len(k)), "op {}: signature does not verify in the reference, block {}", i, hex(&key.enc(&x).to_be_len(k)));
                must!(o.verify(&sg, &m), "op {}: own signature", i);
                l.push(s("signed"));
            }
            Op::Verify(m, other, sg) => {
                let m = m.bytes();
                let offered = other.as_ref().map_or(m.clone(), |x| x.bytes());
                let below = |em: Vec<u8>, l: &mut Vec<String>| { let mut x = Bn::from_be(&em); if x >= key.n { l.push(s("block above the modulus")); x = x.rem(&key.n); } key.dec(&x) };
                let good = |j: usize, l: &mut Vec<String>| below(md.block(&m, &salt(j)), l);
                let b = match sg {
                    Sg::Good => { l.push(s("made by the reference")); good(0, l).to_be_len(k) }
                    Sg::Flip(x) => { let mut v = good(0, l).to_be_len(k); let j = *x as usize % (8 * k); v[j / 8] ^= 1 << (j % 8); l.push(s("bit flipped")); v }
                    Sg::PlusN => {
                        let mut v = good(0, l);
                        if pss && md.salt() > 0 { for j in 1..12 { if v.add(&key.n).bits() <= 8 * k { break; } v = good(j, l); } }
                        let w = v.add(&key.n);
                        if w.bits() <= 8 * k { l.push(s("signature plus modulus")); w.to_be_len(k) } else { v.to_be_len(k) }
                    }
                    Sg::Resize(by) => {
                        let mut x = good(0, l);
                        if *by < 0 && pss && md.salt() > 0 { for j in 1..24 { if x.bits() <= 8 * (k - 1) { break; } x = good(j, l); } }
                        let mut v = x.to_be_len(k);
                        let by = if *by == 0 { 1 } else { *by };
                        if by > 0 { let mut w = vec![0; by as usize]; w.append(&mut v); v = w; l.push(s("zeros in front")); }
                        else { if v[0] == 0 { l.push(s("leading zero dropped")); } v.drain(..((-(by as i32)) as usize).min(k)); l.push(s("shorter")); }
                        v
                    }
                    Sg::Neg => { l.push(s("negated")); key.n.sub(&good(0, l)).to_be_len(k) }
                    Sg::Bad(how) => { let e = md.bad(&m, &salt(0), how, l); below(e, l).to_be_len(k) }
                    Sg::Em(x) => key.dec(&x.get(&key.n).rem(&key.n)).to_be_len(k),
                    Sg::S(x) => { let mut x = x.get(&key.n); if x.bits() > 8 * k { x = x.rem(&Bn::pow2(8 * k)); } if x >= key.n { l.push(s("signature above the modulus")); } x.to_be_len(k) }
                    Sg::Bytes(b) => b.bytes(),
                    Sg::OtherKey => { let q = checks::pk::key(key.n.bits(), key.primes.len(), c.seed + 100)?; l.push(s("other key")); q.dec(&Bn::from_be(&md.block(&m, &salt(0))).rem(&q.n)).to_be_len(k) }
                };
                let x = Bn::from_be(&b);
                let want = b.len() == k && x < key.n && md.valid(&offered, &key.enc(&x).to_be_len(k));
                let sc = if i % 2 == 0 { SignatureContent::from(b.clone()) } else { SignatureContent::from(b.as_slice()) };
                match (o.verify(&sc, &offered), want) {
                    (Ok(()), true) => l.push(s("accepted")),
                    (Err(_), false) => l.push(s("rejected")),
                    (Err(e), true) => fail!("op {}: valid signature refused: {:?}", i, e),
                    (Ok(()), false) => fail!("op {}: invalid signature of {} bytes accepted ({} bytes modulus)", i, b.len(), k),
                }
                if offered != m { l.push(s("other message")); }
            }
        }
    }
    Ok(())
}
fn done(mut l: Vec<String>, c: &Case) -> Res {
    if c.blind { l.push(s("blinded")); }
    l.sort();
    l.dedup();
    okls(!c.ops.is_empty(), l)
}

fn salt_of(c: &Case, bits: usize) -> usize {
    let hl = c.hash.bytes();
    match c.salt { None => hl, Some(0) => ((bits - 1 + 7) / 8).saturating_sub(2 + hl), Some(x) => x }
}

fn pss(c: &Case) -> Res {
    let hl = c.hash.bytes();
    // smallest key for the hash and the salt, and some bits more
    let want = match c.salt { None => hl, Some(x) => x };
    let bits = 8 * (hl + want + 2) - 6 + c.extra;
    if bits < 24 { return ok(false); }
    let key = key(bits, c.primes.min(bits / 20).max(2), c.seed)?;
    let mut h = BoxD(c.hash.make(c.family));
    h.write(&c.dirty.bytes());
    let kp = if c.public { KeyPair::from(key.public()?) } else { KeyPair::from(key.key.clone()) };
    let rng = Rnd::new(c.script.clone(), c.rng);
    let r = if c.check { PSS::new(h, rng, kp, c.salt, c.blind) } else { PSS::new_uncheck(h, rng, kp, c.salt, c.blind) };
    let salt = salt_of(c, bits);
    let mut o = must!(r, "PSS over {:?} with {} bits and salt {:?}", c.hash, bits, c.salt);
    ensure!(o.salt_len() == salt, "salt length {} instead of {} for {:?} with {} bits", o.salt_len(), salt, c.salt, bits);
    ensure!(o.digest_len() == hl && o.modulus_len() == key.k(), "lengths");
    let md = MPss { hash: c.hash, embits: bits - 1, salt };
    let mut l = vec![format!("{} bits modulo 8", bits % 8), s(match c.salt { None => "salt as long as the hash", Some(0) => "longest salt", _ => "chosen salt length" })];
    drive(&mut o, &md, &key, c, true, &mut l)?;
    done(l, c)
}

macro_rules! p1 { ($c:expr, $kp:expr, $rng:expr, $h:expr) => {{ let mut h = $h; h.write(&$c.dirty.bytes()); let r = if $c.check { PKCS1::new(h, $rng, $kp, $c.blind) } else { PKCS1::new_uncheck(h, $rng, $kp, $c.blind) }; r.map(|x| Box::new(x) as Box<Obj>) }}; }
fn obj1(c: &Case, kp: KeyPair, rng: Rnd) -> Result<Box<Obj>, CryptoError> {
    match c.hash {
        Hash::Md5 => p1!(c, kp, rng, MD5::new()),
        Hash::Sha1 => p1!(c, kp, rng, sha::SHA1::new()),
        Hash::Sha224 => p1!(c, kp, rng, sha::SHA224::new()),
        Hash::Sha256 => p1!(c, kp, rng, sha::SHA256::new()),
        Hash::Sha384 => p1!(c, kp, rng, sha::SHA384::new()),
        Hash::Sha512 => p1!(c, kp, rng, sha::SHA512::new()),
        // the rest has no identifier in the library
        Hash::Sm3 => p1!(c, kp, rng, SM3::new()),
        Hash::Sha512t(256) => p1!(c, kp, rng, sha::SHA512T256::new()),
        Hash::Sha512t(_) => p1!(c, kp, rng, SHA::sha256()),
        Hash::Sha3(256) => p1!(c, kp, rng, sha3::SHA256::new()),
        Hash::Sha3(_) => p1!(c, kp, rng, SHA3::sha512()),
        Hash::Shake { .. } => p1!(c, kp, rng, sha3::Shake256::new(256)),
    }
}
fn pkcs1(c: &Case) -> Res {
    let t = rr::digest_prefix(&c.hash.name().to_lowercase()).len() + c.hash.bytes();
    let bits = 8 * (t + 11) - 7 + c.extra;
    let key = key(bits, c.primes.min(bits / 20).max(2), c.seed)?;
    let kp = if c.public { KeyPair::from(key.public()?) } else { KeyPair::from(key.key.clone()) };
    let mut o = must!(obj1(c, kp, Rnd::new(c.script.clone(), c.rng)), "PKCS1 over {:?} with {} bits", c.hash, bits);
    let md = MP1 { hash: c.hash, k: key.k() };
    let mut l = vec![c.hash.name()];
    drive(o.as_mut(), &md, &key, c, false, &mut l)?;
    done(l, c)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Refuse { case: Case, short: usize, bits: usize }
/// unsupported hashes, keys too small: an error at construction or at use
fn refused(c: &Refuse) -> Res {
    let mut l = vec![];
    let known = matches!(c.case.hash, Hash::Md5 | Hash::Sha1 | Hash::Sha224 | Hash::Sha256 | Hash::Sha384 | Hash::Sha512);
    let bits = if known { let t = rr::digest_prefix(&c.case.hash.name().to_lowercase()).len() + c.case.hash.bytes(); l.push(s("key too small for the hash")); (8 * (t + 10)).saturating_sub(c.short % 200).max(96) } else { l.push(s("unsupported hash")); 512 + c.short % 8 };
    let key = key(bits - bits % 8, 2, c.case.seed % 2)?;
    let kp = if c.case.public { KeyPair::from(key.public()?) } else { KeyPair::from(key.key.clone()) };
    if let Ok(mut o) = obj1(&c.case, kp, Rnd::seeded(1)) {
        let mut sg = SignatureContent::new();
        ensure!(o.sign(&mut sg, b"m").is_err(), "PKCS1 over {:?} with {} bits signed", c.case.hash, bits);
        ensure!(o.verify(&SignatureContent::from(vec![1u8; key.k()]), b"m").is_err(), "PKCS1 verified");
    }
    // PSS: refused exactly when hash and salt do not fit
    let hl = c.case.hash.bytes();
    let b = c.bits.max(40);
    let nb = { let mut v = Blob { len: (b + 7) / 8, pat: c.case.saltpat.pat.clone() }.bytes(); let z = 8 * v.len() - b; v[0] = (v[0] | 0x80) >> z; let n = v.len(); v[n - 1] |= 1; Bn::from_be(&v) };
    let emlen = (b - 1 + 7) / 8;
    let salt = match c.case.salt { None => hl, Some(0) => emlen.saturating_sub(hl + 2), Some(x) => x };
    let fits = emlen >= hl.saturating_add(salt).saturating_add(2);
    let pk = || PublicKey::from_be_bytes(&nb.to_be(), &[1, 0, 1]).map(KeyPair::from);
    for check in [false, true] {
        let kp = must!(pk(), "public key");
        let h = BoxD(c.case.hash.make(false));
        let r = if check { PSS::new(h, Rnd::seeded(1), kp, c.case.salt, false) } else { PSS::new_uncheck(h, Rnd::seeded(1), kp, c.case.salt, false) };
        ensure!(r.is_ok() == fits, "PSS with {} bits, hash of {} bytes, salt {:?}: {}", b, hl, c.case.salt, r.is_ok());
        if let Ok(mut o) = r {
            let mut sg = SignatureContent::new();
            ensure!(o.sign(&mut sg, b"m").is_err(), "signed with a public key");
            ensure!(o.salt_len() == salt, "salt length {} instead of {}", o.salt_len(), salt);
        }
    }
    l.push(s(if fits { "fits" } else { "does not fit" }));
    if b <= 300 {
        let r = PSS::auto_generate_key(b, 4, BoxD(c.case.hash.make(false)), Rnd::seeded(c.case.rng), c.case.salt, c.case.blind);
        ensure!(r.is_ok() == fits, "PSS::auto_generate_key({}) over {:?} with salt {:?}: {}", b, c.case.hash, c.case.salt, r.is_ok());
        if let Ok(mut o) = r {
            ensure!(o.salt_len() == salt, "generated: salt length {} instead of {}", o.salt_len(), salt);
            let mut sg = SignatureContent::new();
            must!(o.sign(&mut sg, b"m"), "signing with a generated key");
            must!(o.verify(&sg, b"m"), "verifying with a generated key");
            l.push(s("generated"));
        }
    }
    okls(true, l)
}

fn sg() -> BoxedStrategy<Sg> {
    prop_oneof![
        4 => Just(Sg::Good), 2 => any::<u32>().prop_map(Sg::Flip), 1 => Just(Sg::PlusN), 1 => (-4i8..5).prop_map(Sg::Resize),
        8 => prop::collection::vec((any::<u8>(), any::<u32>()), 1..3).prop_map(Sg::Bad),
        1 => Just(Sg::Neg), 1 => num().prop_map(Sg::Em), 1 => wide_num().prop_map(Sg::S), 1 => blob(0..100usize).prop_map(Sg::Bytes), 1 => Just(Sg::OtherKey),
    ].boxed()
}
fn case(hash: BoxedStrategy<Hash>, extra: BoxedStrategy<usize>, salt: BoxedStrategy<Option<usize>>, seeds: u64, primes: usize, n: usize) -> BoxedStrategy<Case> {
    let msg = || blob(prop_oneof![60 => 0..80usize, 20 => lens(64, 400), 1 => 400..9_000usize]);
    let op = prop_oneof![2 => msg().prop_map(Op::Sign), 7 => (msg(), prop::option::weighted(0.1, msg()), sg()).prop_map(|(a, b, c)| Op::Verify(a, b, c))];
    ((hash, any::<bool>(), extra, 2..=primes, 0..seeds, salt, prop::collection::vec(op, 1..n)),
     (any::<u64>(), prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(prop_oneof![Just(0u32), Just(u32::MAX), any::<u32>()], 0..30)], blob(Just(0usize)), any::<bool>(), any::<bool>(), prop::bool::weighted(0.05), blob(0..20usize)))
        .prop_map(|((hash, family, extra, primes, seed, salt, ops), (rng, script, saltpat, blind, check, public, dirty))| Case { hash, family, extra, primes, seed, salt, ops, rng, script, saltpat, blind, check, public, dirty }).boxed()
}
fn small_hash() -> BoxedStrategy<Hash> { (prop_oneof![Just(128usize), Just(256)], 1usize..65, any::<bool>()).prop_map(|(sec, out, raw)| Hash::Shake { sec, out, raw }).boxed() }
fn byte_hash() -> BoxedStrategy<Hash> { (prop_oneof![Just(128usize), Just(256)], 1usize..9, any::<bool>()).prop_map(|(sec, out, raw)| Hash::Shake { sec, out, raw }).boxed() }
fn pkcs_hash() -> BoxedStrategy<Hash> { prop_oneof![Just(Hash::Md5), Just(Hash::Sha1), Just(Hash::Sha224), Just(Hash::Sha256), Just(Hash::Sha384), Just(Hash::Sha512)].boxed() }
fn any_hash() -> BoxedStrategy<Hash> { prop_oneof![md_hash(), sha3_hash(), shake_hash().prop_map(|h| match h { Hash::Shake { sec, out, raw } => Hash::Shake { sec, out: 1 + out % 512, raw }, h => h })].boxed() }
fn salts(max: usize) -> BoxedStrategy<Option<usize>> { prop_oneof![2 => Just(None), 2 => Just(Some(0)), 3 => (1..=max).prop_map(Some)].boxed() }

fn main() {
    let mut r = Run::new("C12");
    r.assume("reference EMSA-PSS/EMSA-PKCS1 follow RFC 8017 (checked with OpenSSL in tools/validate_refs.py); keys come from the library's own generator (C10)");
    let common = ["bit flipped", "signature plus modulus", "zeros in front", "leading zero dropped", "negated", "other key", "other message", "made by the reference", "accepted", "rejected", "public key only"];
    let pl: Vec<&str> = common.iter().cloned().chain(["trailer altered", "padding altered", "separator altered", "hash altered", "top bits set", "prefix altered", "other salt length", "message hash altered", "0 bits modulo 8", "1 bits modulo 8", "7 bits modulo 8", "longest salt"]).collect();
    r.sub("pss_small", 80_000, 600_000, "PSS with hashes of 1 to 8 bytes and keys from 24 bits on, every modulus length modulo 8, histories of signing and of verifying valid and deformed signatures; non-trivial: key of at least 24 bits",
        || case(small_hash(), (0usize..40).boxed(), salts(6), 2, 3, 6), pss).require(&pl, 30);
    r.sub("pss", 10_000, 80_000, "PSS over every hash with keys to 1100 bits; non-trivial: all",
        || case(prop_oneof![md_hash(), sha3_hash()].boxed(), (0usize..12).boxed(), prop_oneof![2 => Just(None), 1 => Just(Some(0usize)), 2 => prop_oneof![Just(1usize), Just(8), Just(20), Just(33)].prop_map(Some)].boxed(), 1, 2, 4), pss);
    let cl: Vec<&str> = common.iter().cloned().filter(|x| !["leading zero dropped"].contains(x)).chain(["first byte not zero", "block type altered", "padding altered", "separator altered", "hash identifier altered", "hash altered", "rubbish behind the hash", "identifier without parameter", "other identifier"]).collect();
    r.sub("pkcs1", 30_000, 400_000, "PKCS#1 v1.5 signatures over the six supported hashes with the smallest fitting keys and up; non-trivial: all",
        || case(pkcs_hash(), prop_oneof![3 => (0usize..9).boxed(), 2 => (1usize..8).prop_map(|x| 8 * x).boxed()].boxed(), Just(None).boxed(), 1, 2, 6), pkcs1).require(&cl, 30);
    r.sub("standard_sizes", 100, 1_500, "1024 and 2048 bit keys, both schemes; non-trivial: all",
        || (any::<bool>(), any::<bool>(), case(prop_oneof![Just(Hash::Sha1), Just(Hash::Sha256), Just(Hash::Sha512)].boxed(), Just(0usize).boxed(), Just(None).boxed(), 1, 2, 3)), |(p, big, c): &(bool, bool, Case)| {
            let mut c = c.clone();
            let bits = if *big { 2048 } else { 1024 };
            if *p {
                c.salt = if c.rng % 2 == 0 && c.hash != Hash::Sha512 { None } else { Some(20) };
                c.extra = bits + 6 - 8 * (c.hash.bytes() + c.salt.unwrap_or(c.hash.bytes()) + 2);
                pss(&c)
            } else {
                let t = rr::digest_prefix(&c.hash.name().to_lowercase()).len() + c.hash.bytes();
                c.extra = bits + 7 - 8 * (t + 11);
                pkcs1(&c)
            }
        });
    r.sub("long_mask", 600, 12_000, "PSS with hashes of one byte and keys of 2090 to 2500 bits of ten primes, so that the mask takes more than 256 hash values; non-trivial: all",
        || (case(byte_hash(), prop::sample::select(vec![2090usize, 2131, 2300, 2472]).boxed(), prop_oneof![1 => Just(None), 1 => Just(Some(0usize)), 3 => (1usize..8).prop_map(Some)].boxed(), 1, 2, 5), Just(10usize)), |(c, primes): &(Case, usize)| {
            let mut c = c.clone();
            c.primes = *primes;
            // one size of key for every length of the salt
            c.extra -= 8 * c.salt.unwrap_or(1);
            pss(&c)
        }).require(&["accepted", "rejected", "signed", "longest salt"], 30);
    r.sub("refused", 40_000, 300_000, "unsupported hashes, keys too small for hash and salt (also when generated), and the exact limit; non-trivial: all",
        || (case(any_hash(), Just(0usize).boxed(), prop_oneof![3 => salts(40), 1 => (0usize..20).prop_map(|x| Some(usize::MAX - x)), 1 => any::<usize>().prop_map(Some)].boxed(), 2, 2, 2), any::<usize>(), prop_oneof![40usize..300, 40usize..900]).prop_map(|(case, short, bits)| Refuse { case, short, bits }), refused)
        .require(&["unsupported hash", "key too small for the hash", "fits", "does not fit", "generated"], 50);
    r.finish();
}
